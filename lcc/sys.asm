code

equ out -1
equ outs -2
