/* clock() that advances ten seconds per call, so that every progress update that may come does come */
long clock(void) { static long t; return t += 10000000; }
