#ifndef VFS_H
#define VFS_H
#include <stddef.h>
#define VFS_MAX 48
#define VFS_PATH 256
enum { VFS_FILE=1, VFS_DIR, VFS_LINK };
#ifdef __cplusplus
extern "C" {
#endif
struct vnode { int kind; char path[VFS_PATH]; char *data; size_t len, cap; int created, modified, rderr; size_t rdlimit; };
extern struct vnode vfs_nodes[VFS_MAX]; extern int vfs_n; extern struct vnode vfs_out[2]; extern const char *vfs_stdin; extern size_t vfs_stdin_len; extern int vfs_open_files; extern int vfs_atexit_base; extern size_t vfs_limit; void vfs_flush_out(void);
void vfs_norm(const char*,char*); struct vnode *vfs_get(const char*); struct vnode *vfs_new(const char*,int); void vfs_clear(void); void vfs_put(struct vnode*,size_t,const char*,size_t); int vfs_resolve(const char*,char*); int vfs_parent_ok(const char*); void vfs_reset_stdio(void); int vfs_natexit(void); void vfs_set_natexit(int);
void rt_run_atexit(int);
#ifdef __cplusplus
}
#endif
#endif
