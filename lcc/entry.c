/* entry point of the programs in run/ */
int test(int command, int arg0);
int vmMain(int command, int arg0) { return test(command, arg0); }
