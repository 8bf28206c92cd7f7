#define assert(x) ((x) ? (void)0 : abort())
void abort(void);
