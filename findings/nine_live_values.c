int run(void) { int a = 1; return a + (a * 2 + (a * 3 + (a * 4 + (a * 5 + (a * 6 + (a * 7 + (a * 8 + (a * 9 + (a * 10 + a * 11))))))))); }
