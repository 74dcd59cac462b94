int run(void) { int x = 0; switch (x) { case 4294967296l: return 1; default: return 2; } }
