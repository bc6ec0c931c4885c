// Everything Argus asks of its surroundings ends here: memory, environment, output, descriptors,
// program end, and (through the coverage callback) the moments at which another task may run.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <unistd.h>
#include <unordered_map>
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>

World *W = nullptr;
static std::unordered_map<const void *, Block> ledger;
static u64 alloc_serial;
static std::map<int, size_t> live_by_ctx, live_custom_by_ctx;

// ---------------------------------------------------------------- memory
const Block *sim_block(const void *p) { auto i = ledger.find(p); return i == ledger.end() ? nullptr : &i->second; }
static size_t tokens(int c) { return W && c >= 0 && (size_t)c < W->ctx.size() ? W->ctx[(size_t)c]->tokens.size() : 0; }
size_t sim_live(int c) { auto i = live_by_ctx.find(c); return (i == live_by_ctx.end() ? 0 : i->second) + tokens(c); }
size_t sim_live_custom(int c) { auto i = live_custom_by_ctx.find(c); return (i == live_custom_by_ctx.end() ? 0 : i->second) + tokens(c); }

static void seam_inputs()
{
    if (W && W->prop == 16 && W->frame() && W->frame()->ctx >= 0)
        W->check_inputs(*W->ctx[W->frame()->ctx], "while an operation was running");
}

static void *obtain(size_t n, int custom)
{
    Frame *f = W ? W->frame() : nullptr;
    if (f) {
        int mode;
        W->stats.allocs++;
        W->seam_point(SK_MEM);
        seam_inputs();
        if (W->faulted(*f, FC_MEM, &mode) || n > (256u << 20)) {
            errno = ENOMEM;
            return nullptr;
        }
    }
    void *p = malloc(n ? n : 1);
    if (!p)
        return nullptr;
    memset(p, 0xA5, n);
    if (f) {
        ledger[p] = Block{n, f->ctx, f->seq, custom, alloc_serial++};
        live_by_ctx[f->ctx]++;
        if (custom)
            live_custom_by_ctx[f->ctx]++;
        W->stale_errno(); // a success may leave anything there
    }
    return p;
}
static bool release(void *p)
{
    auto i = ledger.find(p);
    if (i == ledger.end())
        return false;
    live_by_ctx[i->second.ctx]--;
    if (i->second.custom)
        live_custom_by_ctx[i->second.ctx]--;
    if (W)
        W->hash.add(u64(i->second.size));
    ledger.erase(i);
    free(p);
    return true;
}
void *sim_raw_alloc(size_t n, int custom) { return obtain(n, custom); }
bool  sim_raw_free(void *p) { return release(p); }

extern "C" {
void *sim_malloc(size_t n) { return obtain(n, 0); }
void *sim_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = obtain(n, 0);
    if (p)
        memset(p, 0, n);
    return p;
}
void sim_free(void *p)
{
    if (!p)
        return;
    int          e = errno;
    const Block *b = sim_block(p);
    if (b && b->custom == 2 && W)
        W->report("released-without-callback", PB(4), "a custom value was released without its release callback");
    if (!release(p) && W) {
        W->report("bad-release", PALL, "the library released memory it does not own or has already released");
        W->stop = true;
    }
    errno = e;
}
void *sim_realloc(void *p, size_t n)
{
    if (!p)
        return obtain(n, 0);
    const Block *b = sim_block(p);
    if (!b) {
        if (W) {
            W->report("bad-release", PALL, "the library resized memory it does not own or has already released");
            W->stop = true;
        }
        return nullptr;
    }
    size_t old    = b->size;
    int    custom = b->custom;
    void  *q      = obtain(n, custom);
    if (!q)
        return nullptr;
    if (!sim_block(p)) { // gone while another task ran
        W->report("bad-release", PALL, "the library resized memory that another thread has released");
        W->stop = true;
        return q;
    }
    memcpy(q, p, old < n ? old : n); // always moves
    release(p);
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return sim_realloc(p, n);
}
char *sim_strndup(const char *s, size_t n)
{
    size_t l = strnlen(s, n);
    char  *p = (char *)obtain(l + 1, 0);
    if (p) { memcpy(p, s, l); p[l] = 0; }
    return p;
}
char *sim_strdup(const char *s) { return sim_strndup(s, strlen(s)); }
int sim_vasprintf(char **out, const char *fmt, va_list ap)
{
    va_list cp;
    va_copy(cp, ap);
    int n = vsnprintf(nullptr, 0, fmt, cp);
    va_end(cp);
    char *p = n < 0 ? nullptr : (char *)obtain((size_t)n + 1, 0);
    if (!p) { *out = nullptr; return -1; }
    vsnprintf(p, (size_t)n + 1, fmt, ap);
    *out = p;
    return n;
}
int sim_asprintf(char **out, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = sim_vasprintf(out, fmt, ap);
    va_end(ap);
    return r;
}

// ---------------------------------------------------------------- environment
char *sim_getenv(const char *name)
{
    if (!W || !W->frame())
        return nullptr;
    W->seam_point(SK_ENV);
    seam_inputs();
    W->frame()->envreads.push_back(name);
    auto i = W->env_store.find(name);
    return i == W->env_store.end() ? nullptr : (char *)i->second->c_str();
}
char *sim_secure_getenv(const char *name) { return sim_getenv(name); }
int sim_unsetenv(const char *name)
{
    if (W && W->frame()) W->lib_env(name, nullptr);
    return 0;
}
int sim_setenv(const char *name, const char *value, int overwrite)
{
    if (W && W->frame() && (overwrite || !W->env_store.count(name))) W->lib_env(name, value);
    return 0;
}
int sim_putenv(char *text)
{
    const char *e = strchr(text, '=');
    return e ? sim_setenv(string(text, (size_t)(e - text)).c_str(), e + 1, 1) : sim_unsetenv(text);
}
int sim_clearenv(void)
{
    while (W && W->frame() && !W->env_store.empty()) W->lib_env(W->env_store.begin()->first.c_str(), nullptr);
    return 0;
}

// ---------------------------------------------------------------- program end
__attribute__((noreturn)) static void leave(int code, bool hung)
{
    Frame *f = W ? W->frame() : nullptr;
    if (!f || !f->jb)
        _exit(99);
    f->exited    = !hung;
    f->hung      = hung;
    f->exit_code = code;
    longjmp(*f->jb, 1);
}
__attribute__((noreturn)) void sim_exit(int code) { leave(code & 255, false); }
__attribute__((noreturn)) void sim__exit(int code) { leave(code & 255, false); }
__attribute__((noreturn)) void sim_abort(void) { leave(134, false); }
}

// ---------------------------------------------------------------- descriptors
struct OFD { int kind = 0; int pipe = -1; bool rd = false; int flags = 0; int refs = 0; }; // kind 0 in 1 out 2 err 3 pipe 4 null
struct Pipe { string data; };
static vector<OFD>  ofds;
static vector<int>  fdt;
static vector<Pipe> pipes;
static int          fd_max = 1000;
static const size_t PIPE_CAP = 65536;

static void fd_drop(int fd) { ofds[fdt[fd]].refs--; fdt[fd] = -1; }
void fd_reset(int extra, int closed)
{
    ofds.assign(3, OFD());
    pipes.clear();
    fdt.clear();
    for (int i = 0; i < 3; i++) {
        ofds[i].kind = i;
        ofds[i].refs = 1;
        fdt.push_back(i);
    }
    for (int i = 0; i < 3; i++)
        if (closed >> i & 1) // as daemons and some launchers leave them
            fd_drop(i);
    fd_max = extra ? 3 + extra : 1000;
}
string fd_snapshot()
{
    string s;
    for (size_t i = 0; i < fdt.size(); i++)
        if (fdt[i] >= 0)
            s += std::to_string(i) + ":" + std::to_string(ofds[fdt[i]].kind) + "/" + std::to_string(ofds[fdt[i]].pipe) + "/" + std::to_string(ofds[fdt[i]].flags) + " ";
    return s;
}
static OFD *fd_get(int fd) { return fd >= 0 && fd < (int)fdt.size() && fdt[fd] >= 0 ? &ofds[fdt[fd]] : nullptr; }
static int fd_new(int o, int from = 0)
{
    for (int i = from; i < fd_max; i++) {
        if (i >= (int)fdt.size())
            fdt.resize(i + 1, -1);
        if (fdt[i] < 0) {
            fdt[i] = o;
            ofds[o].refs++;
            return i;
        }
    }
    errno = EMFILE;
    return -1;
}
static bool pipe_end_open(int p, bool rd)
{
    for (auto &o : ofds)
        if (o.kind == 3 && o.pipe == p && o.rd == rd && o.refs > 0)
            return true;
    return false;
}
static bool fd_fault(int cls, int *mode) { Frame *f = W ? W->frame() : nullptr; return f && W->faulted(*f, cls, mode); }
__attribute__((noreturn)) static void blocked(const char *what)
{
    W->report("blocked", PALL, string("the library waits for ever in ") + what);
    W->stop = true;
    leave(0, true);
}

static ssize_t fd_write(int fd, const char *p, size_t n)
{
    OFD   *o = fd_get(fd);
    Frame *f = W ? W->frame() : nullptr;
    if (!o) { errno = EBADF; return -1; }
    if (o->kind == 1) { if (f) f->out.append(p, n); return (ssize_t)n; }
    if (o->kind == 2) { if (f) f->err.append(p, n); return (ssize_t)n; }
    if (o->kind == 4) return (ssize_t)n;
    if (o->kind != 3 || o->rd) { errno = EBADF; return -1; }
    if (!pipe_end_open(o->pipe, true)) {
        if (W) { W->report("sigpipe", PB(14) | PB(1), "the program is killed by writing to a pipe nobody reads"); W->stop = true; }
        errno = EPIPE;
        return -1;
    }
    string &d = pipes[o->pipe].data;
    size_t room = PIPE_CAP - d.size();
    if (room >= n) { d.append(p, n); return (ssize_t)n; }
    if (o->flags & O_NONBLOCK) {
        if (W) W->stats.probes["pipe-full"]++;
        if (room == 0 || n <= 4096) { errno = EAGAIN; return -1; }
        d.append(p, room);
        return (ssize_t)room;
    }
    blocked("a write to a full pipe that only it could empty");
}

extern "C" {
int sim_pipe2(int p[2], int flags)
{
    int m;
    if (fd_fault(FC_PIPE, &m)) { errno = m == 1 ? ENFILE : EMFILE; return -1; }
    OFD r, w;
    r.kind = w.kind = 3;
    r.pipe = w.pipe = (int)pipes.size();
    r.rd = true;
    r.flags = w.flags = flags & O_NONBLOCK;
    pipes.emplace_back();
    ofds.push_back(r);
    int ro = (int)ofds.size() - 1;
    ofds.push_back(w);
    int wo = ro + 1;
    int a  = fd_new(ro);
    int b  = a < 0 ? -1 : fd_new(wo);
    if (b < 0) {
        if (a >= 0) fd_drop(a);
        errno = EMFILE;
        return -1;
    }
    p[0] = a;
    p[1] = b;
    return 0;
}
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
int sim_dup(int fd)
{
    int m;
    if (!fd_get(fd)) { errno = EBADF; return -1; }
    if (fd_fault(FC_DUP, &m)) { errno = EMFILE; return -1; }
    return fd_new(fdt[fd]);
}
int sim_dup2(int a, int b)
{
    int m;
    if (!fd_get(a) || b < 0 || b >= fd_max) { errno = EBADF; return -1; }
    if (fd_fault(FC_DUP2, &m)) {
        // Only a redirection may fail for good: a failed restoration leaves no way out
        bool hard = m == 2 && fd_get(a)->kind == 3;
        errno     = hard ? EMFILE : m == 1 ? EBUSY : EINTR;
        return -1;
    }
    if (a == b)
        return b;
    if (fd_get(b))
        fd_drop(b);
    if (b >= (int)fdt.size())
        fdt.resize(b + 1, -1);
    fdt[b] = fdt[a];
    ofds[fdt[b]].refs++;
    return b;
}
int sim_dup3(int a, int b, int) { return sim_dup2(a, b); }
int sim_close(int fd)
{
    int m;
    if (!fd_get(fd)) {
        errno = EBADF;
        if (W) {
            W->report("bad-close", PB(14), "the library closed descriptor " + std::to_string(fd) + ", which is not open");
        }
        return -1;
    }
    bool fail = fd_fault(FC_CLOSE, &m);
    fd_drop(fd); // closed all the same, as on Linux
    if (fail) { errno = m == 1 ? EIO : EINTR; return -1; }
    return 0;
}
ssize_t sim_read(int fd, void *buf, size_t n)
{
    int  m;
    OFD *o = fd_get(fd);
    if (!o || (o->kind == 3 && !o->rd)) { errno = EBADF; return -1; }
    if (fd_fault(FC_READ, &m)) {
        if (m != 2) { W->frame()->read_broken |= m == 1; errno = m == 1 ? EIO : EINTR; return -1; }
        n = n > 3 ? 3 : n; // short read
    }
    if (o->kind != 3)
        return 0;
    string &d = pipes[o->pipe].data;
    if (d.empty()) {
        if (!pipe_end_open(o->pipe, false)) return 0;
        if (o->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
        blocked("a read from a pipe that only it could fill");
    }
    size_t k = d.size() < n ? d.size() : n;
    memcpy(buf, d.data(), k);
    d.erase(0, k);
    return (ssize_t)k;
}
int sim_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    int arg = va_arg(ap, int);
    va_end(ap);
    int  m;
    OFD *o = fd_get(fd);
    if (!o) { errno = EBADF; return -1; }
    if (fd_fault(FC_FCNTL, &m)) { errno = m == 1 ? EINTR : EINVAL; return -1; }
    switch (cmd) {
        case F_GETFL: return o->flags | (o->kind == 3 ? (o->rd ? O_RDONLY : O_WRONLY) : O_RDWR);
        case F_SETFL: o->flags = arg & (O_NONBLOCK | O_APPEND); return 0;
        case F_GETFD: case F_SETFD: return 0;
        case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_new(fdt[fd], arg);
        default: errno = EINVAL; return -1;
    }
}
int sim_open(const char *, int, ...)
{
    OFD o;
    o.kind = 4;
    ofds.push_back(o);
    return fd_new((int)ofds.size() - 1);
}
int sim_isatty(int) { return 0; }
int sim_poll(struct pollfd *p, unsigned long n, int timeout)
{
    int r = 0;
    for (unsigned long i = 0; i < n; i++) {
        OFD *o       = fd_get(p[i].fd);
        p[i].revents = 0;
        if (!o) p[i].revents = POLLNVAL;
        else if (o->kind == 3 && o->rd) {
            if (!pipes[o->pipe].data.empty()) p[i].revents |= POLLIN & p[i].events;
            if (!pipe_end_open(o->pipe, false)) p[i].revents |= POLLHUP;
        } else p[i].revents |= POLLOUT & p[i].events;
        r += p[i].revents != 0;
    }
    if (r == 0 && timeout < 0)
        blocked("poll");
    return r;
}

// ---------------------------------------------------------------- output
// One call of the C library that writes; the streams are treated as unbuffered.
static int emit(int fd, const char *p, size_t n)
{
    Frame *f = W ? W->frame() : nullptr;
    if (!f)
        return (int)n;
    W->stats.writes++;
    W->seam_point(SK_OUT);
    seam_inputs();
    int m;
    if (W->faulted(*f, fd == 1 ? FC_OUT : FC_ERR, &m)) {
        if (m != 1)
            W->stream_error[fd] = true;
        switch (m) {
            case 1: return (int)n;
            case 2: fd_write(fd, p, n / 2); errno = ENOSPC; return -1;
            case 4: errno = EINTR; return -1;
            default: errno = EIO; return -1;
        }
    }
    if ((W->sc.closed >> fd & 1) && !fd_get(fd)) { // a failing write, of the kind that lasts
        W->stats.probes["write-to-closed-stream"]++;
        f->fired[fd == 1 ? FC_OUT : FC_ERR]++;
    }
    const char *q = p;
    while (n > 0) {
        ssize_t k = fd_write(fd, q, n);
        if (k < 0) {
            W->stream_error[fd] = true;
            return -1;
        }
        q += k;
        n -= (size_t)k;
    }
    return (int)(q - p);
}
static int stream_fd(FILE *s) { return s == stdout ? 1 : s == stderr ? 2 : -1; }

int sim_vfprintf(FILE *s, const char *fmt, va_list ap)
{
    int fd = stream_fd(s);
    if (fd < 0)
        return vfprintf(s, fmt, ap);
    char    small[512];
    va_list cp;
    va_copy(cp, ap);
    int n = vsnprintf(small, sizeof small, fmt, cp);
    va_end(cp);
    if (n < 0)
        return n;
    if ((size_t)n < sizeof small)
        return emit(fd, small, (size_t)n) < 0 ? -1 : n;
    string big((size_t)n + 1, 0);
    vsnprintf(&big[0], big.size(), fmt, ap);
    return emit(fd, big.data(), (size_t)n) < 0 ? -1 : n;
}
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(stdout, fmt, ap); }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int sim_fprintf(FILE *s, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(s, fmt, ap); va_end(ap); return r; }
int sim_vsnprintf(char *b, size_t n, const char *fmt, va_list ap)
{
    int r = vsnprintf(b, n, fmt, ap);
    if (W && W->threaded && W->frame())
        W->seam_point(SK_FMT);
    return r;
}
int sim_snprintf(char *b, size_t n, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vsnprintf(b, n, fmt, ap); va_end(ap); return r; }
int sim_fputc(int c, FILE *s)
{
    int  fd = stream_fd(s);
    char ch = (char)c;
    if (fd < 0)
        return fputc(c, s);
    return emit(fd, &ch, 1) < 0 ? EOF : (unsigned char)ch;
}
int sim_putc(int c, FILE *s) { return sim_fputc(c, s); }
int sim_putchar(int c) { return sim_fputc(c, stdout); }
int sim_fputs(const char *p, FILE *s)
{
    int fd = stream_fd(s);
    if (fd < 0)
        return fputs(p, s);
    return emit(fd, p, strlen(p)) < 0 ? EOF : 1;
}
int sim_puts(const char *p)
{
    string s = string(p) + "\n";
    return emit(1, s.data(), s.size()) < 0 ? EOF : 1;
}
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *s)
{
    int fd = stream_fd(s);
    if (fd < 0)
        return fwrite(p, a, b, s);
    return emit(fd, (const char *)p, a * b) < 0 ? 0 : b;
}
int sim_fflush(FILE *s) // what was not written is lost
{
    for (int fd = 1; fd <= 2 && W; fd++)
        if ((!s || stream_fd(s) == fd) && W->stream_error[fd] && W->frame()) {
            errno = ENOSPC;
            return EOF;
        }
    return 0;
}
void sim_perror(const char *p) { string s = string(p ? p : "") + ": " + strerror(errno) + "\n"; emit(2, s.data(), s.size()); }
ssize_t sim_write(int fd, const void *p, size_t n)
{
    if (fd == 1 || fd == 2)
        return emit(fd, (const char *)p, n) < 0 ? -1 : (ssize_t)n;
    return fd_write(fd, (const char *)p, n);
}
int sim_vdprintf(int fd, const char *fmt, va_list ap)
{
    return fd == 1 ? sim_vfprintf(stdout, fmt, ap) : fd == 2 ? sim_vfprintf(stderr, fmt, ap) : -1;
}
int sim_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vdprintf(fd, fmt, ap); va_end(ap); return r; }
int sim_fileno(FILE *s) { return s == stdin ? 0 : stream_fd(s); }
int sim_ferror(FILE *s) { int fd = stream_fd(s); return fd > 0 && W ? W->stream_error[fd] : 0; }
void sim_clearerr(FILE *s) { int fd = stream_fd(s); if (fd > 0 && W) W->stream_error[fd] = false; }
int sim_setvbuf(FILE *, char *, int, size_t) { return 0; }
void sim_setbuf(FILE *, char *) {}

// ---------------------------------------------------------------- regular expressions allocate too
static void *re_malloc(size_t n, void *) { return sim_malloc(n); }
static void  re_free(void *p, void *) { sim_free(p); }
pcre2_code_8 *sim_pcre2_compile_8(PCRE2_SPTR8 pat, PCRE2_SIZE len, uint32_t opt, int *err, PCRE2_SIZE *off, pcre2_compile_context_8 *)
{
    // The context itself comes from the ordinary allocator; the code does not
    static pcre2_general_context_8 *g = pcre2_general_context_create_8(re_malloc, re_free, nullptr);
    static pcre2_compile_context_8 *c = pcre2_compile_context_create_8(g);
    return pcre2_compile_8(pat, len, opt, err, off, c);
}

// ---------------------------------------------------------------- steps, coverage, scheduling
static unsigned char cov[1 << 20];
static u64           static_sum();
static std::vector<std::pair<const volatile unsigned char *, size_t>> variables;
extern char __executable_start;

void __sanitizer_cov_trace_pc(void)
{
    World *w = W;
    if (!w)
        return;
    u64 pc = (u64)((char *)__builtin_return_address(0) - &__executable_start);
    cov[pc & (sizeof cov - 1)] = 1;
    Frame *f = w->frame();
    if (!f)
        return;
    w->steps++;
    if (++f->steps > w->step_limit) {
        w->report("hang", PALL, "the call does not come to an end");
        w->stop = true;
        leave(0, true);
    }
    if (w->threaded && w->pre_left && --w->pre_left == 0) {
        w->shash.add(pc);
        w->schedule_point();
    }
    if (w->threaded && w->sc.site_mod && Rng::mix(pc ^ w->sc.yield_seed) % (u64)w->sc.site_mod == 0)
        w->seam_point(SK_SITE);
    if (w->threaded && (w->sc.yield_kinds & SK_STATIC || w->watch_static) && !variables.empty() && w->steps < 2000000) { // variables of the library changed
        u64 h = static_sum();
        if (h != w->static_sum) {
            w->static_sum = h;
            w->static_writes++;
            w->seam_point(SK_STATIC);
        }
    }
}
}
size_t coverage_count() { size_t n = 0; for (auto c : cov) n += c; return n; }
void   coverage_merge(std::set<u64> &out) { for (size_t i = 0; i < sizeof cov; i++) if (cov[i]) out.insert(i); }

// ---------------------------------------------------------------- library globals
extern "C" {
extern char __start_argus_data[] __attribute__((weak)), __stop_argus_data[] __attribute__((weak));
extern char __start_argus_bss[] __attribute__((weak)), __stop_argus_bss[] __attribute__((weak));
}
static char  *snap_data, *snap_bss;
static void raw_copy(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void argus_snapshot()
{
    size_t a = __start_argus_data ? __stop_argus_data - __start_argus_data : 0;
    size_t b = __start_argus_bss ? __stop_argus_bss - __start_argus_bss : 0;
    snap_data = (char *)malloc(a + 1);
    snap_bss  = (char *)malloc(b + 1);
    if (a) raw_copy(snap_data, __start_argus_data, a);
    if (b) raw_copy(snap_bss, __start_argus_bss, b);
}
void argus_restore()
{
    if (!snap_data)
        argus_snapshot();
    size_t a = __start_argus_data ? __stop_argus_data - __start_argus_data : 0;
    size_t b = __start_argus_bss ? __stop_argus_bss - __start_argus_bss : 0;
    if (a) raw_copy(__start_argus_data, snap_data, a);
    if (b) raw_copy(__start_argus_bss, snap_bss, b);
}

// The writable variables of the library (build.py lists them), so that the scheduler can notice a change to one.
static void variables_load()
{
    char    path[4096];
    ssize_t n = readlink("/proc/self/exe", path, sizeof path - 16);
    if (n <= 0)
        return;
    path[n] = 0;
    if (char *s = strrchr(path, '/'))
        strcpy(s + 1, "variables");
    size_t words = 0;
    if (FILE *f = fopen(path, "r")) {
        unsigned long at, size;
        while (words < 512 && fscanf(f, "%lx %lx", &at, &size) == 2) {
            size = std::min<size_t>(size, 1024);
            words += size / 8 + 1;
            variables.push_back({(const volatile unsigned char *)at, size});
        }
        fclose(f);
    }
}
static u64 static_sum()
{
    u64 h = 1;
    for (auto &v : variables) {
        const volatile unsigned char *p = v.first;
        size_t                        n = v.second;
        for (; n && (size_t)p % 8; n--)
            h = (h ^ *p++) * 0x9e3779b97f4a7c15ull, h ^= h >> 29;
        for (; n >= 8; n -= 8, p += 8)
            h = (h ^ *(const volatile u64 *)p) * 0x9e3779b97f4a7c15ull, h ^= h >> 29;
        for (; n; n--)
            h = (h ^ *p++) * 0x9e3779b97f4a7c15ull, h ^= h >> 29;
    }
    return h;
}

void seams_begin(World *w)
{
    for (auto &e : ledger)
        free((void *)e.first);
    ledger.clear();
    live_by_ctx.clear();
    live_custom_by_ctx.clear();
    alloc_serial = 0;
    fd_reset(w->sc.fdlimit, w->sc.closed);
    argus_restore();
    static bool listed = (variables_load(), true);
    (void)listed;
    w->static_sum   = static_sum();
    w->watch_static = w->sc.faults.empty() && w->sc.pre.empty() && !w->sc.yield_kinds;
    // pcre2 contexts must exist before memory can fail
    World *save = W;
    W           = nullptr;
    int        e;
    PCRE2_SIZE o;
    static bool once = (pcre2_code_free_8(sim_pcre2_compile_8((PCRE2_SPTR8) "a", 1, 0, &e, &o, nullptr)), true);
    (void)once;
    W = save;
    W = w;
}
void seams_end()
{
    W = nullptr;
    for (auto &e : ledger)
        free((void *)e.first);
    ledger.clear();
}

// ---------------------------------------------------------------- tasks: real threads, one at a time
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t  cv[16];
static int             token = -1;
static bool            cv_init;

static void wait_token(int me)
{
    while (token != me)
        pthread_cond_wait(&cv[me + 1], &mu);
}
void task_switch_to(int t)
{
    int me = W->cur;
    if (t == me)
        return;
    pthread_mutex_lock(&mu);
    W->cur = t < 0 ? 0 : t;
    token  = t;
    pthread_cond_signal(&cv[t + 1]);
    if (!W->tasks[me].done)
        wait_token(me);
    pthread_mutex_unlock(&mu);
}
static void *thread_main(void *arg)
{
    int me = (int)(intptr_t)arg;
    pthread_mutex_lock(&mu);
    wait_token(me);
    pthread_mutex_unlock(&mu);
    W->run_task(me);
    W->tasks[me].done = true;
    int next = -1;
    for (size_t i = 0; i < W->tasks.size() && next < 0; i++)
        if (!W->tasks[i].done)
            next = (int)i;
    task_switch_to(next);
    return nullptr;
}
void run_threads(World *w)
{
    if (!cv_init)
        for (auto &c : cv)
            pthread_cond_init(&c, nullptr);
    cv_init = true;
    vector<pthread_t> th(w->tasks.size());
    pthread_attr_t    at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 2 << 20);
    token = -1;
    for (size_t i = 0; i < th.size(); i++)
        if (pthread_create(&th[i], &at, thread_main, (void *)(intptr_t)i) != 0)
            _exit(98);
    pthread_mutex_lock(&mu);
    w->cur = 0;
    token  = 0;
    pthread_cond_signal(&cv[1]);
    wait_token(-1);
    pthread_mutex_unlock(&mu);
    for (auto &t : th)
        pthread_join(t, nullptr);
    pthread_attr_destroy(&at);
}

extern "C" const char *__asan_default_options(void)
{
    return "detect_leaks=0:halt_on_error=1:exitcode=77:max_free_fill_size=4096:free_fill_byte=219:allocator_may_return_null=1:"
           "quarantine_size_mb=16:handle_abort=1:detect_stack_use_after_return=0:use_sigaltstack=0:allow_user_segv_handler=1";
}
extern "C" int sim_open64(const char *, int, ...) __attribute__((alias("sim_open")));
extern "C" int sim_fcntl64(int, int, ...) __attribute__((alias("sim_fcntl")));
