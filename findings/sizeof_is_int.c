int run(void) { int m = -1; return sizeof(int) > m; }
