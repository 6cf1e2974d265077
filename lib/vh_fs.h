/* in-memory file system that stands in for the real one, in the symbolic build and in replays */
#ifndef VH_FS_H
#define VH_FS_H
#include "vh.h"
#ifndef VH_NODES
#define VH_NODES 6
#endif
#ifndef VH_NAME
#define VH_NAME 4     /* longest name + 1 */
#endif
#ifndef VH_DATA
#define VH_DATA 8     /* largest file */
#endif
enum { VH_NONE, VH_FILE, VH_DIR, VH_LINK };
struct vh_node { int kind, parent, target; size_t n; char name[VH_NAME]; char data[VH_DATA]; };
extern struct vh_node vh_node[VH_NODES];   /* 0: the current directory, 1: the root directory */
extern int vh_fs_on;                       /* set by vh_fs_init */
extern int vh_calls, vh_fail_at;           /* number of mkdir/rmdir/unlink/rename calls so far; which of them fails (-1: none) */
extern int vh_streams, vh_dirs;            /* open streams and directories */
extern int vh_fopen_fail, vh_std_closed;   /* fopen fails; stderr or stdout was closed */
extern size_t vh_space, vh_short;          /* bytes that can still be written; bytes missing at the end of what is read */
extern int vh_unbuffered;                  /* a failing write fails at once rather than when the stream is closed */
extern int vh_err;                         /* node that receives stderr (-1: dropped) */
extern const char *vh_home, *vh_cwd, *vh_exe; extern size_t vh_exe_len; extern int vh_cwd_fail;
void vh_fs_init(void);
int vh_mk(int parent, const char *name, int kind);
int vh_find(int parent, const char *name);   /* -1: no such entry */
#endif
