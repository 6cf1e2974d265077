/* a smaller PATH_MAX where a query asks for it: large tables of names defeat constant propagation */
#include_next <linux/limits.h>
#ifdef VH_PATH_MAX
#undef PATH_MAX
#define PATH_MAX VH_PATH_MAX
#endif
