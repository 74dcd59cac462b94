int g = -1;
int run(void) { return g; }
