long run(void) { long a[1]; long* p = a; int i = 536870912; return ((long) (p + i) - (long) p) == 4294967296l; }
