// Symbolic back end of h.h: the program's main() runs over the virtual file system.
#include "h.h"
#include <algorithm>
#include <stdlib.h>
extern "C" {
#include "vfs.h"
int prog_main(int, char **);
void rt_reset_streams(void);
void exit(int) noexcept;
static int start(int c, char **v){ int r = prog_main(c, v); exit(r); }
}
static vnode *mk(const char *p, int kind){ char n[VFS_PATH]; vfs_norm(p, n); vnode *v = vfs_get(n); if (v) { v->len = 0; v->kind = kind; } else v = vfs_new(n, kind); return v; }
void h_file(const char *p, const std::string &d){ vnode *v = mk(p, VFS_FILE); vfs_put(v, 0, d.data(), d.size()); }
void h_dir(const char *p){ mk(p, VFS_DIR); }
void h_link(const char *p, const char *t){ vnode *v = mk(p, VFS_LINK); vfs_put(v, 0, t, strlen(t) + 1); }
void h_read_limit(const char *p, long k){ char n[VFS_PATH]; vfs_norm(p, n); if (vnode *v = vfs_get(n)) { v->rderr = k >= 0; v->rdlimit = k; } }
static size_t lim = (size_t)-1;
void h_write_limit(long n){ lim = n; }
static int base = -1;
Run h_run(const std::vector<std::string> &args, const std::string &in, unsigned long limit){
    if (base < 0) base = vfs_natexit();
    sym_prog_reset(); vfs_set_natexit(base); vfs_atexit_base = base; vfs_reset_stdio(); rt_reset_streams();
    for (int i = 0; i < 2; i++) { free(vfs_out[i].data); vfs_out[i].data = 0; vfs_out[i].len = vfs_out[i].cap = 0; }
    vfs_stdin = in.data(); vfs_stdin_len = in.size();
    unsigned n = sym_prog_nctors(); for (unsigned i = 0; i < n; i++) sym_prog_ctor(i);
    // argv: each argument in an object of its own, so that reads past its end are seen
    char **av = (char **)malloc(sizeof(char *) * (args.size() + 2)); int k = 0;
    av[k++] = strdup("gendlopen"); for (auto &a : args) { char *p = (char *)malloc(a.size() + 1); memcpy(p, a.data(), a.size()); p[a.size()] = 0; av[k++] = p; } av[k] = nullptr;
    Run r; sym_limit(limit); vfs_limit = lim; r.status = sym_call_marked((void *)start, k, av); sym_limit(0); vfs_flush_out(); vfs_limit = (size_t)-1;
    r.status &= 255;
    for (int i = 0; i < 2; i++) (i ? r.err : r.out).assign(vfs_out[i].data ? vfs_out[i].data : "", vfs_out[i].len);
    for (int i = 0; i < k; i++) free(av[i]); free(av);
    return r; }
int h_kind(const char *p){ char n[VFS_PATH]; vfs_norm(p, n); vnode *v = vfs_get(n); return v ? v->kind : 0; }
std::string h_read(const char *p){ char n[VFS_PATH]; if (vfs_resolve(p, n)) return ""; vnode *v = vfs_get(n); if (!v || v->kind != VFS_FILE) return ""; return std::string(v->data ? v->data : "", v->len); }
std::vector<std::string> h_list(){ std::vector<std::string> r; for (int i = 0; i < vfs_n; i++) if (vfs_nodes[i].kind) r.push_back(vfs_nodes[i].path); std::sort(r.begin(), r.end()); return r; }
void h_reset(){ vfs_clear(); }
