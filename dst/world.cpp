#include "world.h"
#include "shm.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/stat.h>

Binaries g_bin;
static Shared *sh;

void world_setup()
{
    int fd = (int)syscall(SYS_memfd_create, "x1dst", 0);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) < 0) { perror("memfd"); exit(3); }
    if (dup2(fd, SIM_FD) < 0) { perror("dup2"); exit(3); }
    if (fd != SIM_FD) close(fd);
    sh = (Shared *)mmap((void *)SIM_ADDR, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, SIM_FD, 0);
    if (sh == MAP_FAILED) { perror("mmap"); exit(3); }
    personality(ADDR_NO_RANDOMIZE);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    if (n > 2) close(n);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
}

namespace {

struct Inode {
    std::string data;
    bool dir = false, exe = false;
    int mode = 0644;
    unsigned long ino = 0;
    std::string real; // program behind an executable
    size_t synced = 0;
    bool dirty = false; // written in this run and not synced
    long mtime = 0;     // us
};
using InodeP = std::shared_ptr<Inode>;
struct Pipe { std::string buf; int readers = 0, writers = 0; };
struct OFile {
    enum K { REG, DIR, IN, SINK, PIPE_R, PIPE_W, NUL, FULL } k = NUL;
    InodeP ino;
    std::string path;
    size_t pos = 0;
    int flags = 0;
    int inst = 0, which = 0; // SINK: 1 or 2
    std::shared_ptr<Pipe> pipe;
    ~OFile()
    {
        if (k == PIPE_R) pipe->readers--;
        if (k == PIPE_W) pipe->writers--;
    }
};
using OFileP = std::shared_ptr<OFile>;
struct Proc {
    int slot = -1, pid = 0, ppid = 0, inst = 0;
    std::string role, exe, cwd;
    std::map<int, std::pair<OFileP, bool>> fds; // bool: close on exec
    bool alive = true, zombie = false, started = false, fresh_child = false, root = false;
    int wstatus = 0;
    pid_t real = 0;
    long not_before = 0;
    bool pending = false; // has a request to serve
    uint64_t sigign = 0;
};
using ProcP = std::shared_ptr<Proc>;

const char *opname(long nr)
{
    switch (nr) {
    case SYS_read: case SYS_pread64: return "read";
    case SYS_write: case SYS_pwrite64: return "write";
    case SYS_open: case SYS_openat: case SYS_creat: return "open";
    case SYS_close: return "close";
    case SYS_fork: return "fork";
    case SYS_execve: return "exec";
    case SYS_wait4: case SYS_waitid: return "wait";
    case SYS_dup: case SYS_dup2: case SYS_dup3: return "dup";
    case SYS_stat: case SYS_lstat: case SYS_fstat: case SYS_newfstatat: case SYS_statx: return "stat";
    case SYS_access: case SYS_faccessat: case SYS_faccessat2: return "access";
    case SYS_unlink: case SYS_unlinkat: return "unlink";
    case SYS_rename: case SYS_renameat: case SYS_renameat2: return "rename";
    case SYS_lseek: return "lseek";
    case SYS_exit: case SYS_exit_group: return "exit";
    case SYS_clock_gettime: case SYS_gettimeofday: case SYS_time: return "clock";
    case SYS_fsync: case SYS_fdatasync: return "fsync";
    case SYS_pipe: case SYS_pipe2: return "pipe";
    case SYS_ioctl: return "ioctl";
    case SYS_nanosleep: case SYS_clock_nanosleep: return "sleep";
    case SYS_getrandom: return "random";
    case SYS_kill: case SYS_tgkill: case SYS_tkill: return "kill";
    case SIM_CRASH: return "crash";
    case SIM_ATTACH: return "start";
    case SIM_CHILD: return "child";
    default: return "misc";
    }
}

struct Engine {
    const Scenario &sc;
    RunResult r;
    std::map<std::string, InodeP> fs;
    std::vector<ProcP> procs;
    std::vector<bool> fired;
    std::map<std::string, int> counter;
    long elapsed = 0, jump = 0, disk_free = -1, steps = 0;
    unsigned long next_ino = 100;
    int next_pid = 1000;
    size_t sched_pos = 0;
    Hash hash, order;
    bool overrun = false; // a process was ended by its limit of processor time
    int last_pid = 0;
    std::vector<size_t> in_chunk, in_off;
    std::vector<long> phase_t0;
    long t0 = 0;
    bool slot_used[SIM_SLOTS] = {};
    bool power_off = false;

    explicit Engine(const Scenario &s) : sc(s)
    {
        next_pid = s.pid0;
        r.inst.resize(s.insts.size());
        fired.resize(s.faults.size());
        in_chunk.assign(s.insts.size(), 0);
        in_off.assign(s.insts.size(), 0);
        disk_free = s.disk_free;
    }
    void harness(const std::string &m) { if (r.harness.empty()) r.harness = m; }

    // ------------------------------------------------------------- file system
    static std::string norm(const std::string &cwd, const std::string &p)
    {
        std::string full = !p.empty() && p[0] == '/' ? p : cwd + "/" + p;
        std::vector<std::string> parts;
        std::stringstream ss(full);
        std::string c;
        while (std::getline(ss, c, '/')) {
            if (c.empty() || c == ".") continue;
            if (c == "..") { if (!parts.empty()) parts.pop_back(); }
            else parts.push_back(c);
        }
        std::string o;
        for (auto &x : parts) o += "/" + x;
        return o.empty() ? "/" : o;
    }
    static std::string parent(const std::string &p)
    {
        auto k = p.rfind('/');
        return k == 0 || k == std::string::npos ? "/" : p.substr(0, k);
    }
    int new_pid()
    {
        for (;;) {
            int n = next_pid++;
            if (std::none_of(procs.begin(), procs.end(), [&](const ProcP &p) { return p->pid == n; })) return n;
        }
    }
    InodeP mkino(bool dir)
    {
        auto i = std::make_shared<Inode>();
        i->dir = dir;
        i->ino = next_ino++;
        i->mtime = wall();
        if (dir) i->mode = 0755;
        return i;
    }
    void mkdirs(const std::string &p)
    {
        if (fs.count(p)) return;
        if (p != "/") mkdirs(parent(p));
        fs[p] = mkino(true);
    }
    InodeP lookup(const std::string &p) { auto i = fs.find(p); return i == fs.end() ? nullptr : i->second; }
    // A component of the path must be a directory.
    int walk(const std::string &p)
    {
        std::string d = parent(p);
        std::vector<std::string> up;
        for (std::string q = d; q != "/"; q = parent(q)) up.push_back(q);
        for (auto it = up.rbegin(); it != up.rend(); ++it) {
            auto i = lookup(*it);
            if (!i) return ENOENT;
            if (!i->dir) return ENOTDIR;
            if (!(i->mode & 0100)) return EACCES;
        }
        return 0;
    }
    static std::string cls_path(const std::string &p)
    {
        if (ends(p, ".a60")) return "src";
        if (ends(p, ".lib")) return "lib";
        if (p.find("trace") != std::string::npos) return "trace";
        if (starts(p, "/w/") || starts(p, "/tmp/") || starts(p, "/w2/")) return "obj";
        return "other";
    }
    std::string cls_of(const OFile &f)
    {
        if (f.k == OFile::IN) return "stdin";
        if (f.k == OFile::SINK) return f.which == 1 ? "stdout" : "stderr";
        if (f.k == OFile::REG) return cls_path(f.path);
        if (f.k == OFile::PIPE_R || f.k == OFile::PIPE_W) return "pipe";
        return "other";
    }

    // ---------------------------------------------------------------- faults
    const Fault *match(const Proc &p, const std::string &op, const std::string &cls, int &nth)
    {
        std::string key = fmt("%d|", p.inst) + p.role + "|" + op + "|" + cls;
        nth = counter[key]++;
        for (size_t i = 0; i < sc.faults.size(); i++) {
            auto &f = sc.faults[i];
            if (!fired[i] && f.inst == p.inst && f.role == p.role && f.op == op && f.cls == cls && f.nth == nth) {
                fired[i] = true;
                r.fired[f.kind == "err" ? "err-" + std::string(strerrorname_np((int)f.arg) ? strerrorname_np((int)f.arg) : "?") : f.kind]++;
                r.fired_faults++;
                return &f;
            }
        }
        return nullptr;
    }
    void log(Proc &p, const std::string &op, const std::string &cls, int nth, long ret, const std::string &info = "", long val = 0)
    {
        Ev e;
        e.inst = p.inst; e.role = p.role; e.op = op; e.cls = cls; e.nth = nth; e.ret = ret; e.info = info;
        e.t_us = elapsed; e.out_len = r.inst[p.inst].out.size(); e.val = val; e.pid = p.pid;
        hash.num(p.inst); hash.add(p.role); hash.add(op); hash.add(cls); hash.num(nth); hash.num((uint64_t)ret);
        hash.add(info); hash.num((uint64_t)elapsed); hash.num((uint64_t)val);
        if (r.ev.size() < 100000) r.ev.push_back(e);
    }

    // -------------------------------------------------------------- processes
    ProcP by_pid(int pid)
    {
        for (auto &p : procs) if (p->pid == pid) return p;
        return nullptr;
    }
    Slot &S(Proc &p) { return sh->slot[p.slot]; }
    const std::map<std::string, std::string> &bins()
    {
        auto i = sc.x.find("build");
        return i != sc.x.end() && i->second == "checked" ? g_bin.checked : g_bin.real;
    }
    int alloc_slot()
    {
        for (int i = 0; i < SIM_SLOTS; i++)
            if (!slot_used[i]) {
                slot_used[i] = true;
                memset(&sh->slot[i], 0, offsetof(Slot, in));
                return i;
            }
        harness("out of slots");
        return 0;
    }
    void plan_alloc(Proc &p)
    {
        Slot &s = S(p);
        s.alloc_n = 0;
        s.alloc_fail_at = 0;
        s.alloc_fired = 0;
        s.poison = (uint32_t)sc.poison;
        s.alloc_limit = sc.insts[p.inst].alloc_limit;
        for (auto &f : sc.faults)
            if (f.op == "malloc" && f.inst == p.inst && f.role == p.role) {
                s.alloc_fail_at = f.nth + 1;
                s.alloc_fail_len = f.arg;
            }
    }
    void harvest_alloc(Proc &p)
    {
        Slot &s = S(p);
        std::string k = fmt("%d|", p.inst) + p.role;
        r.allocs[k] = s.alloc_n;
        r.peak[k] = std::max(r.peak[k], (long)s.alloc_peak);
        s.alloc_peak = s.alloc_live;
        if (s.alloc_fired) {
            r.allocs_fired[k] += s.alloc_fired;
            r.fired["enomem"] += s.alloc_fired;
            for (size_t i = 0; i < sc.faults.size(); i++) {
                auto &f = sc.faults[i];
                if (f.op == "malloc" && f.inst == p.inst && f.role == p.role && !fired[i]) { fired[i] = true; r.fired_faults++; }
            }
        }
        s.alloc_fired = 0;
    }
    static long now_ms()
    {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec * 1000 + t.tv_nsec / 1000000;
    }
    // Let the process run until its next request. False: it died for real.
    bool wait_req(Proc &p)
    {
        Slot &s = S(p);
        long t_end = 0;
        for (;;) {
            uint32_t v = __atomic_load_n(&s.state, __ATOMIC_SEQ_CST);
            if (v == ST_REQ) return true;
            struct timespec to = { 0, 100000000 };
            long e = syscall(SYS_futex, &s.state, FUTEX_WAIT, v, &to, nullptr, 0);
            if (e < 0 && errno == ETIMEDOUT) {
                if (!t_end) t_end = now_ms() + 120000;
                int st;
                if (p.real && waitpid(p.real, &st, WNOHANG) == p.real) {
                    if (__atomic_load_n(&s.state, __ATOMIC_SEQ_CST) == ST_REQ) { p.real = 0; return true; }
                    p.real = 0;
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && s.state != ST_REQ) {
                        // CPU hard limit
                        terminate(p, SIGXCPU, true);
                        return false;
                    }
                    harness(fmt("process died outside the simulation: status %x role %s", st, p.role.c_str()));
                    p.alive = false;
                    return false;
                }
                if (now_ms() > t_end) { harness("no progress in 120 s of real time, role " + p.role); return false; }
            }
        }
    }
    void reply(Proc &p, long ret, int action = ACT_RET)
    {
        Slot &s = S(p);
        s.ret = ret;
        s.action = action;
        p.pending = false;
        __atomic_store_n(&s.state, ST_REP, __ATOMIC_SEQ_CST);
        syscall(SYS_futex, &s.state, FUTEX_WAKE, 1, nullptr, nullptr, 0);
    }
    void spawn(int inst)
    {
        auto &in = sc.insts[inst];
        auto p = std::make_shared<Proc>();
        p->inst = inst; p->pid = new_pid(); p->ppid = 1; p->root = true;
        p->role = in.exe; p->exe = in.exe; p->cwd = in.cwd;
        p->slot = alloc_slot();
        p->not_before = t0 + in.start_us;
        auto f0 = std::make_shared<OFile>();
        f0->k = in.in.type == "null" ? OFile::NUL : OFile::IN; f0->inst = inst; f0->which = 0; f0->flags = O_RDONLY;
        if (in.in.type != "closed") p->fds[0] = { f0, false };
        for (int w = 1; w <= 2; w++) {
            if ((w == 1 ? in.out : in.err).type == "closed") continue;
            auto f = std::make_shared<OFile>();
            f->k = OFile::SINK; f->inst = inst; f->which = w; f->flags = O_WRONLY;
            p->fds[w] = { f, false };
        }
        std::vector<std::string> env;
        env.push_back("LD_PRELOAD=" + g_bin.libsim);
        env.push_back("SIMSLOT=" + std::to_string(p->slot));
        if (in.cpu_ms) env.push_back("SIMCPU=" + std::to_string(in.cpu_ms));
        for (auto &e : in.env) env.push_back(e.first + "=" + e.second);
        std::vector<char *> av, ev;
        for (auto &a : in.argv) av.push_back((char *)a.c_str());
        av.push_back(nullptr);
        for (auto &e : env) ev.push_back((char *)e.c_str());
        ev.push_back(nullptr);
        pid_t pid;
        posix_spawnattr_t at;
        posix_spawnattr_init(&at);
        sigset_t none, all;
        sigemptyset(&none);
        sigfillset(&all);
        posix_spawnattr_setsigmask(&at, &none);
        posix_spawnattr_setsigdefault(&at, &all);
        posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGMASK | POSIX_SPAWN_SETSIGDEF);
        auto it = bins().find(in.exe);
        int e = it == bins().end() ? ENOENT : posix_spawn(&pid, it->second.c_str(), nullptr, &at, av.data(), ev.data());
        posix_spawnattr_destroy(&at);
        if (e) { harness("cannot start " + in.exe + ": " + strerror(e)); return; }
        p->real = pid;
        struct rlimit rl = { (rlim_t)in.cpu_s, (rlim_t)in.cpu_s + 2 };
        prlimit(pid, RLIMIT_CPU, &rl, nullptr);
        procs.push_back(p);
        plan_alloc(*p);
        if (wait_req(*p)) p->pending = true;
    }
    void terminate(Proc &p, int sig, bool natural, int code = 0, bool already_dead = false)
    {
        if (!p.alive) return;
        p.alive = false;
        p.pending = false;
        harvest_alloc(p);
        p.fds.clear();
        p.wstatus = sig ? sig : (code & 255) << 8;
        p.zombie = true;
        if (p.real && !already_dead) {
            kill(p.real, SIGKILL);
            int st;
            waitpid(p.real, &st, 0);
        }
        p.real = 0;
        slot_used[p.slot] = false;
        auto &ir = r.inst[p.inst];
        if (p.root) {
            ir.how = sig ? (natural ? "signal" : "killed") : "exit";
            if ((sig == SIGXCPU || sig == SIGPROF) && natural) { ir.how = "hang"; overrun = true; }
            ir.code = sig ? sig : code & 255;
        } else if (sig && natural) {
            ir.sub_abnormal++;
            ir.sub_note += p.role + ":" + std::to_string(sig) + " ";
            if (sig == SIGXCPU) { ir.sub_note += "(hang) "; overrun = true; }
        }
        for (auto &q : procs)
            if (q->ppid == p.pid) { q->ppid = 1; if (q->zombie) q->zombie = false; }
        if (p.ppid == 1) p.zombie = false;
    }
    void kill_tree(Proc &p, int scope, int sig)
    {
        int inst = p.inst;
        terminate(p, sig, false);
        for (size_t i = 0; i < procs.size(); i++) {
            auto q = procs[i];
            if (!q->alive) continue;
            if (scope == 2 || (scope == 1 && q->inst == inst)) terminate(*q, sig, false);
        }
    }
    void tear_unsynced(long arg)
    {
        for (auto &e : fs) {
            auto &i = *e.second;
            if (!i.dirty || i.dir) continue;
            size_t keep = i.synced + (arg < 0 ? 0 : (size_t)arg % (i.data.size() + 1 > i.synced ? i.data.size() + 1 - i.synced : 1));
            if (keep < i.data.size()) i.data.resize(keep);
            i.dirty = false;
        }
    }

    // ----------------------------------------------------------------- stat
    void fill_stat(struct stat &st, const OFile *f, const InodeP &ino)
    {
        memset(&st, 0, sizeof st);
        st.st_dev = 1;
        st.st_nlink = 1;
        st.st_uid = st.st_gid = 1000;
        st.st_blksize = 4096;
        if (ino) {
            st.st_mode = (ino->dir ? S_IFDIR : S_IFREG) | (ino->mode & 07777);
            st.st_ino = ino->ino;
            st.st_size = (long)ino->data.size();
            st.st_blocks = (st.st_size + 511) / 512;
            st.st_mtim.tv_sec = ino->mtime / 1000000;
            st.st_mtim.tv_nsec = ino->mtime % 1000000 * 1000;
            st.st_ctim = st.st_atim = st.st_mtim;
            return;
        }
        std::string type = "pipe";
        if (f->k == OFile::IN) type = sc.insts[f->inst].in.type;
        if (f->k == OFile::SINK) type = f->which == 1 ? sc.insts[f->inst].out.type : sc.insts[f->inst].err.type;
        if (f->k == OFile::NUL || f->k == OFile::FULL) type = "dev";
        st.st_ino = 50 + f->which;
        if (type == "tty") { st.st_mode = S_IFCHR | 0620; st.st_rdev = 0x8801; st.st_blksize = 1024; }
        else if (type == "dev" || type == "null") { st.st_mode = S_IFCHR | 0666; st.st_rdev = 0x103; }
        else if (type == "file") {
            st.st_mode = S_IFREG | 0644;
            if (f->k == OFile::IN) { long n = 0; for (auto &c : sc.insts[f->inst].in.chunks) n += (long)c.data.size(); st.st_size = n; }
            else st.st_size = (long)(f->which == 1 ? r.inst[f->inst].out : r.inst[f->inst].err).size();
        } else st.st_mode = S_IFIFO | 0600;
    }
    static void to_statx(struct statx &x, const struct stat &st)
    {
        memset(&x, 0, sizeof x);
        x.stx_mask = STATX_BASIC_STATS;
        x.stx_blksize = (uint32_t)st.st_blksize;
        x.stx_nlink = 1; x.stx_uid = st.st_uid; x.stx_gid = st.st_gid;
        x.stx_mode = (uint16_t)st.st_mode; x.stx_ino = st.st_ino; x.stx_size = (uint64_t)st.st_size; x.stx_blocks = (uint64_t)st.st_blocks;
        x.stx_mtime.tv_sec = st.st_mtim.tv_sec; x.stx_mtime.tv_nsec = (uint32_t)st.st_mtim.tv_nsec;
        x.stx_ctime = x.stx_atime = x.stx_mtime;
    }
    int newfd(Proc &p, OFileP f, bool cx, int from = 0)
    {
        int n = from;
        while (p.fds.count(n)) n++;
        p.fds[n] = { f, cx };
        return n;
    }

    // ------------------------------------------------------------ read/write
    // Returns false if it must block.
    bool can_read(Proc &, OFile &f, long &wake)
    {
        if (f.k == OFile::IN) {
            auto &in = sc.insts[f.inst].in;
            if (in.type == "file") return true;
            size_t c = in_chunk[f.inst];
            if (c < in.chunks.size()) {
                long at = t0 + in.chunks[c].at_us;
                if (at > elapsed) { wake = at; return false; }
                return true;
            }
            if (in.end == "block") { wake = -1; return false; }
            return true;
        }
        if (f.k == OFile::PIPE_R && f.pipe->buf.empty() && f.pipe->writers > 0) { wake = -1; return false; }
        return true;
    }
    long do_read(Proc &p, OFile &f, size_t n, std::string &data, const Fault *fa)
    {
        if ((f.flags & O_ACCMODE) == O_WRONLY) return -EBADF;
        if (fa && fa->kind == "err") return -fa->arg;
        if (fa && fa->kind == "short" && n > 1) n = 1 + (size_t)fa->arg % n;
        if (fa && fa->kind == "eof") return 0;
        if ((f.flags & O_ACCMODE) == O_WRONLY && (f.k == OFile::REG || f.k == OFile::NUL || f.k == OFile::FULL)) return -EBADF;
        switch (f.k) {
        case OFile::REG: {
            if (f.pos >= f.ino->data.size()) return 0;
            data = f.ino->data.substr(f.pos, n);
            f.pos += data.size();
            break;
        }
        case OFile::IN: {
            auto &in = sc.insts[f.inst].in;
            auto &ir = r.inst[f.inst];
            ir.in_reads++;
            if (in.maxread > 0 && n > (size_t)in.maxread) n = in.maxread;
            if (in.type == "file") {
                std::string all;
                for (auto &c : in.chunks) all += c.data;
                if (f.pos < all.size()) data = all.substr(f.pos, n);
                f.pos += data.size();
            } else {
                size_t &c = in_chunk[f.inst];
                size_t &o = in_off[f.inst];
                if (c < in.chunks.size()) {
                    data = in.chunks[c].data.substr(o, n);
                    o += data.size();
                    if (o >= in.chunks[c].data.size()) { c++; o = 0; }
                }
            }
            if (data.empty()) {
                if (in.end == "eio") { r.fired["stdin-eio"]++; return -EIO; }
                ir.sawEof = true;
            }
            ir.in_read += data.size();
            break;
        }
        case OFile::PIPE_R:
            data = f.pipe->buf.substr(0, n);
            f.pipe->buf.erase(0, data.size());
            break;
        case OFile::DIR: return -EISDIR;
        case OFile::SINK: return -EIO;
        case OFile::PIPE_W: return -EBADF;
        case OFile::NUL: case OFile::FULL: return 0;
        }
        if (fa && fa->kind == "flip" && !data.empty()) data[(size_t)fa->arg % data.size()] ^= (char)(1 << (fa->arg2 & 7));
        (void)p;
        return (long)data.size();
    }
    long do_write(Proc &p, OFile &f, const char *buf, size_t n, const Fault *fa, int &sigpipe)
    {
        if ((f.flags & O_ACCMODE) == O_RDONLY && f.k != OFile::SINK) return -EBADF;
        size_t offered = n;
        (void)offered;
        if (fa && fa->kind == "err") {
            if (f.k == OFile::SINK && f.which == 1) r.inst[f.inst].lost += (long)n;
            if (fa->arg == EPIPE) sigpipe = 1;
            return -fa->arg;
        }
        if (fa && fa->kind == "short" && n > 1) n = 1 + (size_t)fa->arg % (n - 1);
        if (fa && fa->kind == "torn") n = n ? (size_t)fa->arg % n : 0;
        switch (f.k) {
        case OFile::REG: {
            if (f.flags & O_APPEND) f.pos = f.ino->data.size();
            size_t end = f.pos + n;
            size_t grow = end > f.ino->data.size() ? end - f.ino->data.size() : 0;
            if (disk_free >= 0 && (long)grow > disk_free) {
                size_t cut = grow - (size_t)disk_free;
                n -= cut;
                r.fired["disk-full"]++;
                if (n == 0) return -ENOSPC;
                end = f.pos + n;
                grow = (size_t)disk_free;
            }
            if (disk_free >= 0) disk_free -= (long)grow;
            if (f.ino->data.size() < end) f.ino->data.resize(end);
            f.ino->data.replace(f.pos, n, buf, n);
            f.pos = end;
            f.ino->dirty = true;
            f.ino->mtime = wall();
            return (long)n;
        }
        case OFile::SINK: {
            auto &spec = f.which == 1 ? sc.insts[f.inst].out : sc.insts[f.inst].err;
            auto &dst = f.which == 1 ? r.inst[f.inst].out : r.inst[f.inst].err;
            if (spec.maxwrite > 0 && n > (size_t)spec.maxwrite) n = spec.maxwrite;
            if (spec.cap >= 0) {
                long left = spec.cap - (long)dst.size();
                if (left < (long)n) {
                    if (left <= 0) {
                        if (f.which == 1) r.inst[f.inst].lost += (long)n;
                        r.fired[(f.which == 1 ? "stdout-" : "stderr-") + spec.fail]++;
                        if (spec.fail == "epipe") { sigpipe = 1; return -EPIPE; }
                        if (spec.fail == "eio") return -EIO;
                        if (spec.fail == "edquot") return -EDQUOT;
                        return -ENOSPC;
                    }
                    n = (size_t)left;
                }
            }
            if (dst.size() < (8u << 20)) dst.append(buf, n);
            return (long)n;
        }
        case OFile::PIPE_W:
            if (f.pipe->readers == 0) { sigpipe = 1; return -EPIPE; }
            f.pipe->buf.append(buf, n);
            return (long)n;
        case OFile::NUL: return (long)n;
        case OFile::FULL: return -ENOSPC;
        default: return -EBADF;
        }
        (void)p;
    }

    long do_open(Proc &p, const std::string &path0, int flags, int mode, const Fault *fa)
    {
        if (fa && fa->kind == "err") return -fa->arg;
        if (path0.empty()) return -ENOENT;
        std::string path = norm(p.cwd, path0);
        auto f = std::make_shared<OFile>();
        f->path = path;
        f->flags = flags;
        if (path == "/dev/null") f->k = OFile::NUL;
        else if (path == "/dev/full") f->k = OFile::FULL;
        else if (path == "/dev/stdin" || path == "/dev/stdout" || path == "/dev/stderr" || path == "/dev/tty" || starts(path, "/proc/self/fd/") || starts(path, "/dev/fd/")) {
            int n = path == "/dev/stdin" ? 0 : path == "/dev/stdout" ? 1 : path == "/dev/stderr" ? 2 : path == "/dev/tty" ? -1 : atoi(path.substr(path.rfind('/') + 1).c_str());
            auto it = p.fds.find(n);
            if (it == p.fds.end()) return n == -1 ? -ENXIO : -ENOENT;
            return newfd(p, it->second.first, flags & O_CLOEXEC);
        } else {
            int e = walk(path);
            if (e) return -e;
            auto ino = lookup(path);
            int acc = flags & O_ACCMODE;
            bool wr = acc != O_RDONLY;
            if (ino && (flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
            if (!ino) {
                if (!(flags & O_CREAT)) return -ENOENT;
                auto d = lookup(parent(path));
                if (!d) return -ENOENT;
                if (!d->dir) return -ENOTDIR;
                if (!(d->mode & 0200)) return -EACCES;
                if (disk_free == 0 && sc.disk_free >= 0 && false) return -ENOSPC;
                ino = mkino(false);
                ino->mode = mode & ~022;
                ino->dirty = true;
                fs[path] = ino;
            } else if (ino->dir) {
                if (wr) return -EISDIR;
                f->k = OFile::DIR;
                f->ino = ino;
                return newfd(p, f, flags & O_CLOEXEC);
            } else {
                if (acc != O_WRONLY && !(ino->mode & 0400)) return -EACCES;
                if (wr && !(ino->mode & 0200)) return -EACCES;
                if (flags & O_DIRECTORY) return -ENOTDIR;
                if (wr && (flags & O_TRUNC)) {
                    if (disk_free >= 0) disk_free += (long)ino->data.size();
                    ino->data.clear();
                    ino->synced = 0;
                    ino->dirty = true;
                    ino->mtime = wall();
                }
            }
            f->k = OFile::REG;
            f->ino = ino;
        }
        return newfd(p, f, flags & O_CLOEXEC);
    }

    // ---------------------------------------------------------------- service
    // Is the pending request of p able to proceed? wake: time at which it will be (-1: unknown).
    bool ready(Proc &p, long &wake)
    {
        wake = -1;
        if (p.not_before > elapsed) { wake = p.not_before; return false; }
        if (p.fresh_child) return true;
        Slot &s = S(p);
        switch (s.nr) {
        case SYS_wait4: case SYS_waitid: {
            long opt = s.nr == SYS_wait4 ? s.args[2] : s.args[3];
            if (opt & WNOHANG) return true;
            bool any = false;
            for (auto &q : procs) {
                if (q->ppid != p.pid) continue;
                if (s.nr == SYS_wait4 && (int)s.args[0] > 0 && q->pid != (int)s.args[0]) continue;
                if (s.nr == SYS_waitid && s.args[0] == P_PID && q->pid != (int)s.args[1]) continue;
                if (q->zombie) return true;
                if (q->alive) any = true;
            }
            return !any;
        }
        case SYS_read: case SYS_pread64: {
            auto it = p.fds.find((int)s.args[0]);
            if (it == p.fds.end()) return true;
            return can_read(p, *it->second.first, wake);
        }
        case SYS_nanosleep: case SYS_clock_nanosleep: {
            if (!p.started) return true;
            return true;
        }
        default: return true;
        }
    }
    long wall() const { return sc.wall0_us + elapsed + jump; }
    void out_bytes(Slot &s, const void *d, size_t n) { if (n > SIM_OUT) n = SIM_OUT; memcpy(s.out, d, n); s.outlen = (uint32_t)n; }

    void serve(Proc &p)
    {
        steps++;
        if (p.pid != last_pid && last_pid) r.switches++;
        last_pid = p.pid;
        order.num((uint64_t)p.pid);
        elapsed += 1 + (long)(mix(sc.seed ^ 0x7157, (uint64_t)steps) % (uint64_t)(sc.tick_us > 0 ? sc.tick_us : 1));
        Slot &s = S(p);
        if (p.fresh_child) {
            p.fresh_child = false;
            p.started = true;
            int nth;
            const Fault *fa = match(p, "child", "", nth);
            log(p, "child", "", nth, 0);
            if (fa && starts(fa->kind, "kill")) { kill_tree(p, (int)fa->arg, fa->arg2 ? (int)fa->arg2 : SIGKILL); return; }
            reply(p, 0);
            if (wait_req(p)) p.pending = true;
            return;
        }
        p.sigign = s.sigign;
        long nr = s.nr;
        const int64_t *a = s.args;
        std::string op = opname(nr), cls, info;
        // classify
        std::string path, path2;
        OFileP of;
        int fd = -1;
        auto str1 = [&]() { return std::string(s.in); };
        switch (nr) {
        case SYS_read: case SYS_pread64: case SYS_write: case SYS_pwrite64: case SYS_close: case SYS_fstat: case SYS_lseek:
        case SYS_ioctl: case SYS_fcntl: case SYS_dup: case SYS_dup2: case SYS_dup3: case SYS_ftruncate: case SYS_fsync: case SYS_fdatasync:
        case SYS_getdents64: case SYS_fchmod: case SYS_flock: case SYS_fallocate: case SYS_fadvise64: {
            fd = (int)a[0];
            auto it = p.fds.find(fd);
            if (it != p.fds.end()) { of = it->second.first; cls = cls_of(*of); }
            else cls = "badfd";
            break;
        }
        case SYS_open: case SYS_creat: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_unlink: case SYS_chmod: case SYS_truncate:
        case SYS_openat: case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2: case SYS_unlinkat: case SYS_readlink:
        case SYS_readlinkat: case SYS_mkdir: case SYS_mkdirat: case SYS_rmdir: case SYS_chdir: case SYS_fchmodat:
            path = str1();
            if (path.empty() && (nr == SYS_newfstatat || nr == SYS_statx)) {
                auto it = p.fds.find((int)a[0]);
                if (it != p.fds.end()) { of = it->second.first; cls = cls_of(*of); }
            } else cls = cls_path(norm(p.cwd, path));
            info = path;
            break;
        case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_symlink:
            path = str1();
            path2 = s.in + path.size() + 1;
            cls = cls_path(norm(p.cwd, path2));
            info = path + ">" + path2;
            break;
        case SYS_execve: info = str1(); break;
        default: break;
        }
        int nth = 0;
        const Fault *fa = nullptr;
        if (nr < 10000 || nr == SIM_ATTACH) fa = match(p, op, cls, nth);
        if (fa && fa->kind == "jump") jump += fa->arg;
        if (fa && fa->kind == "fulldisk") { disk_free = fa->arg; }
        if (fa && fa->kind == "kill") {
            log(p, op, cls, nth, 0, "killed before");
            kill_tree(p, (int)fa->arg, fa->arg2 ? (int)fa->arg2 : SIGKILL);
            return;
        }
        if (fa && fa->kind == "power") {
            log(p, op, cls, nth, 0, "power failure");
            kill_tree(p, 2, SIGKILL);
            tear_unsynced(fa->arg);
            return;
        }
        long ret = 0, val = 0;
        int action = ACT_RET;
        int sigpipe = 0;
        s.outlen = 0;
        std::string data;
        bool err = fa && fa->kind == "err";
        switch (nr) {
        case SIM_ATTACH: p.started = true; s.armed = 1; break;
        case SIM_CRASH: {
            int sig = (int)a[0];
            log(p, "crash", "", 0, sig);
            terminate(p, sig, true);
            return;
        }
        case SIM_EXECFAIL: harness(fmt("native exec failed %ld", (long)a[0])); ret = a[0]; break;
        case SIM_FORKED: {
            // parent reports the real pid of its child; the child waits for its first turn
            auto q = procs.back();
            q->real = (pid_t)a[0];
            if ((long)a[0] < 0) { harness("native clone failed"); return; }
            ret = q->pid;
            break;
        }
        case SYS_read: case SYS_pread64: {
            if (!of) { ret = -EBADF; break; }
            size_t n = (size_t)a[2];
            if (n > SIM_OUT) n = SIM_OUT;
            size_t save = of->pos;
            if (nr == SYS_pread64) of->pos = (size_t)a[3];
            ret = do_read(p, *of, n, data, fa);
            if (nr == SYS_pread64) of->pos = save;
            if (ret > 0) out_bytes(s, data.data(), data.size());
            break;
        }
        case SYS_write: case SYS_pwrite64: {
            if (!of) { ret = -EBADF; break; }
            size_t save = of->pos;
            if (nr == SYS_pwrite64) of->pos = (size_t)a[3];
            ret = do_write(p, *of, s.in, s.inlen, fa, sigpipe);
            if (nr == SYS_pwrite64) of->pos = save;
            hash.add(s.in, s.inlen);
            break;
        }
        case SYS_open: ret = do_open(p, path, (int)a[1], (int)a[2], fa); info += fmt(" %#x", (unsigned)a[1]); break;
        case SYS_creat: ret = do_open(p, path, O_CREAT | O_WRONLY | O_TRUNC, (int)a[1], fa); break;
        case SYS_openat: ret = do_open(p, path, (int)a[2], (int)a[3], fa); info += fmt(" %#x", (unsigned)a[2]); break;
        case SYS_close:
            if (!of) { ret = -EBADF; break; }
            p.fds.erase(fd);
            if (err) ret = -fa->arg;
            break;
        case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: case SYS_fstat: {
            struct stat st;
            if (err) { ret = -fa->arg; break; }
            if (nr == SYS_fstat || of) {
                if (!of) { ret = -EBADF; break; }
                fill_stat(st, of.get(), of->ino);
            } else {
                std::string q = norm(p.cwd, path);
                if (path.empty()) { ret = -ENOENT; break; }
                int e = walk(q);
                if (e) { ret = -e; break; }
                auto i = lookup(q);
                if (!i) {
                    if (q == "/dev/null" || q == "/dev/stdin" || q == "/dev/stdout") { OFile t; t.k = OFile::NUL; fill_stat(st, &t, nullptr); }
                    else { ret = -ENOENT; break; }
                } else fill_stat(st, nullptr, i);
            }
            if (nr == SYS_statx) { struct statx x; to_statx(x, st); out_bytes(s, &x, sizeof x); }
            else out_bytes(s, &st, sizeof st);
            break;
        }
        case SYS_access: case SYS_faccessat: case SYS_faccessat2: {
            if (err) { ret = -fa->arg; break; }
            int m = (int)(nr == SYS_access ? a[1] : a[2]);
            std::string q = norm(p.cwd, path);
            if (path.empty()) { ret = -ENOENT; break; }
            int e = walk(q);
            if (e) { ret = -e; break; }
            auto i = lookup(q);
            if (!i) { ret = -ENOENT; break; }
            if (((m & R_OK) && !(i->mode & 0400)) || ((m & W_OK) && !(i->mode & 0200)) || ((m & X_OK) && !(i->mode & 0100))) ret = -EACCES;
            break;
        }
        case SYS_lseek: {
            if (!of) { ret = -EBADF; break; }
            bool seekable = of->k == OFile::REG || (of->k == OFile::IN && sc.insts[of->inst].in.type == "file") ||
                            (of->k == OFile::SINK && sc.insts[of->inst].out.type == "file");
            if (!seekable) { ret = -ESPIPE; break; }
            size_t size = of->k == OFile::REG ? of->ino->data.size() : 0;
            if (of->k == OFile::IN) for (auto &c : sc.insts[of->inst].in.chunks) size += c.data.size();
            if (of->k == OFile::SINK) { size = (of->which == 1 ? r.inst[of->inst].out : r.inst[of->inst].err).size(); of->pos = size; }
            long np = a[2] == SEEK_SET ? (long)a[1] : a[2] == SEEK_CUR ? (long)of->pos + (long)a[1] : (long)size + (long)a[1];
            if (np < 0) { ret = -EINVAL; break; }
            of->pos = (size_t)np;
            ret = np;
            break;
        }
        case SYS_ioctl: {
            if (!of) { ret = -EBADF; break; }
            std::string type = "x";
            if (of->k == OFile::IN) type = sc.insts[of->inst].in.type;
            if (of->k == OFile::SINK) type = of->which == 1 ? sc.insts[of->inst].out.type : sc.insts[of->inst].err.type;
            if (type == "tty" && a[1] == TCGETS) { char t[36] = {}; out_bytes(s, t, sizeof t); break; }
            if (type == "tty" && a[1] == TIOCGWINSZ) { unsigned short w[4] = { 25, 80, 0, 0 }; out_bytes(s, w, sizeof w); break; }
            ret = -ENOTTY;
            break;
        }
        case SYS_fcntl:
            if (!of) { ret = -EBADF; break; }
            switch (a[1]) {
            case F_GETFD: ret = p.fds[fd].second ? FD_CLOEXEC : 0; break;
            case F_SETFD: p.fds[fd].second = a[2] & FD_CLOEXEC; break;
            case F_GETFL: ret = of->flags; break;
            case F_SETFL: of->flags = (of->flags & O_ACCMODE) | ((int)a[2] & ~O_ACCMODE); break;
            case F_DUPFD: ret = newfd(p, of, false, (int)a[2]); break;
            case F_DUPFD_CLOEXEC: ret = newfd(p, of, true, (int)a[2]); break;
            case F_SETLK: case F_SETLKW: case F_GETLK: case 36: case 37: case 38: ret = 0; break;
            default: ret = -EINVAL;
            }
            break;
        case SYS_dup: ret = of ? (err ? -fa->arg : newfd(p, of, false)) : -EBADF; break;
        case SYS_dup2: case SYS_dup3:
            if (!of) { ret = -EBADF; break; }
            if (err) { ret = -fa->arg; break; }
            if ((int)a[1] != fd) p.fds[(int)a[1]] = { of, nr == SYS_dup3 && (a[2] & O_CLOEXEC) };
            ret = a[1];
            break;
        case SYS_pipe: case SYS_pipe2: {
            if (err) { ret = -fa->arg; break; }
            auto pp = std::make_shared<Pipe>();
            pp->readers = pp->writers = 1;
            auto fr = std::make_shared<OFile>(), fw = std::make_shared<OFile>();
            fr->k = OFile::PIPE_R; fr->pipe = pp; fr->flags = O_RDONLY;
            fw->k = OFile::PIPE_W; fw->pipe = pp; fw->flags = O_WRONLY;
            bool cx = nr == SYS_pipe2 && (a[1] & O_CLOEXEC);
            int v[2];
            v[0] = newfd(p, fr, cx);
            v[1] = newfd(p, fw, cx);
            out_bytes(s, v, sizeof v);
            break;
        }
        case SYS_ftruncate: case SYS_truncate: {
            InodeP i = nr == SYS_truncate ? lookup(norm(p.cwd, path)) : of ? of->ino : nullptr;
            if (!i) { ret = nr == SYS_truncate ? -ENOENT : of ? -EINVAL : -EBADF; break; }
            if (err) { ret = -fa->arg; break; }
            i->data.resize((size_t)a[1]);
            i->dirty = true;
            i->mtime = wall();
            break;
        }
        case SYS_fsync: case SYS_fdatasync:
            if (!of) { ret = -EBADF; break; }
            if (err) { ret = -fa->arg; break; }
            if (of->ino) { of->ino->synced = of->ino->data.size(); of->ino->dirty = false; }
            break;
        case SYS_flock: case SYS_fadvise64: case SYS_fallocate: case SYS_fchmod: case SYS_chmod: case SYS_fchmodat: case SYS_utimensat: case SYS_umask: break;
        case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: {
            if (err) { ret = -fa->arg; break; }
            std::string q = norm(p.cwd, path);
            int e = walk(q);
            if (e) { ret = -e; break; }
            auto i = lookup(q);
            if (!i) { ret = -ENOENT; break; }
            bool want_dir = nr == SYS_rmdir || (nr == SYS_unlinkat && (a[2] & 0x200));
            if (i->dir != want_dir) { ret = i->dir ? -EISDIR : -ENOTDIR; break; }
            if (!(lookup(parent(q))->mode & 0200)) { ret = -EACCES; break; }
            if (disk_free >= 0 && !i->dir) disk_free += (long)i->data.size();
            fs.erase(q);
            break;
        }
        case SYS_rename: case SYS_renameat: case SYS_renameat2: {
            if (err) { ret = -fa->arg; break; }
            std::string q = norm(p.cwd, path), q2 = norm(p.cwd, path2);
            int e = walk(q);
            if (!e) e = walk(q2);
            if (e) { ret = -e; break; }
            auto i = lookup(q), j = lookup(q2);
            if (!i) { ret = -ENOENT; break; }
            if (j && j->dir) { ret = -EISDIR; break; }
            if (i->dir) { ret = -EPERM; break; }
            if (!(lookup(parent(q2))->mode & 0200) || !(lookup(parent(q))->mode & 0200)) { ret = -EACCES; break; }
            fs.erase(q);
            fs[q2] = i;
            break;
        }
        case SYS_link: {
            std::string q = norm(p.cwd, path), q2 = norm(p.cwd, path2);
            auto i = lookup(q);
            if (!i) { ret = -ENOENT; break; }
            if (lookup(q2)) { ret = -EEXIST; break; }
            fs[q2] = i;
            break;
        }
        case SYS_symlink: ret = -EPERM; break;
        case SYS_readlink: case SYS_readlinkat: {
            if (path == "/proc/self/exe") { std::string x = "/opt/x1/bin/" + p.exe; out_bytes(s, x.data(), x.size()); ret = (long)x.size(); }
            else ret = lookup(norm(p.cwd, path)) ? -EINVAL : -ENOENT;
            break;
        }
        case SYS_mkdir: case SYS_mkdirat: {
            if (err) { ret = -fa->arg; break; }
            std::string q = norm(p.cwd, path);
            int e = walk(q);
            if (e) { ret = -e; break; }
            if (lookup(q)) { ret = -EEXIST; break; }
            auto d = lookup(parent(q));
            if (!(d->mode & 0200)) { ret = -EACCES; break; }
            fs[q] = mkino(true);
            break;
        }
        case SYS_chdir: {
            std::string q = norm(p.cwd, path);
            auto i = lookup(q);
            if (!i) ret = -ENOENT; else if (!i->dir) ret = -ENOTDIR; else p.cwd = q;
            break;
        }
        case SYS_getcwd:
            if ((size_t)a[1] < p.cwd.size() + 1) { ret = -ERANGE; break; }
            out_bytes(s, p.cwd.c_str(), p.cwd.size() + 1);
            ret = (long)p.cwd.size() + 1;
            break;
        case SYS_getdents64: ret = 0; break;
        case SYS_clock_gettime: case SYS_gettimeofday: case SYS_time: {
            long id = nr == SYS_clock_gettime ? (long)a[0] : 0;
            bool real = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
            if (fa && fa->kind == "stall") elapsed += fa->arg;
            long us = real ? wall() : elapsed + 1000000;
            if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) us = steps;
            struct timespec ts = { us / 1000000, us % 1000000 * 1000 };
            if (us < 0 && us % 1000000) { ts.tv_sec = (us - 999999) / 1000000; ts.tv_nsec = (us - ts.tv_sec * 1000000) * 1000; }
            if (nr == SYS_time) { ret = ts.tv_sec; break; }
            if (nr == SYS_gettimeofday) ts.tv_nsec /= 1000;
            out_bytes(s, &ts, sizeof ts);
            val = us;
            cls = real ? "wall" : "mono";
            break;
        }
        case SYS_clock_getres: { struct timespec ts = { 0, 1 }; out_bytes(s, &ts, sizeof ts); break; }
        case SYS_nanosleep: case SYS_clock_nanosleep: {
            struct timespec ts;
            memcpy(&ts, s.in, sizeof ts);
            long us = ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
            if (nr == SYS_clock_nanosleep && (a[1] & 1)) us -= a[0] == CLOCK_REALTIME ? wall() : elapsed + 1000000;
            if (us > 0) elapsed += us;
            break;
        }
        case SYS_poll: case SYS_ppoll: {
            struct pollfd v[64];
            int n = (int)a[1] > 64 ? 64 : (int)a[1];
            memcpy(v, s.in, (size_t)n * 8);
            for (int i = 0; i < n; i++) {
                v[i].revents = p.fds.count(v[i].fd) ? (short)(v[i].events & (POLLIN | POLLOUT)) : (v[i].fd < 0 ? (short)0 : (short)POLLNVAL);
                if (v[i].revents) ret++;
            }
            out_bytes(s, v, (size_t)n * 8);
            break;
        }
        case SYS_getrandom: {
            std::string d;
            for (long i = 0; i < a[1] && i < 4096; i++) d += (char)mix(sc.seed ^ 0x4a4d, (uint64_t)(steps * 5000 + i));
            out_bytes(s, d.data(), d.size());
            ret = (long)d.size();
            break;
        }
        case SYS_getpid: case SYS_gettid: ret = p.pid; break;
        case SYS_getppid: ret = p.ppid; break;
        case SYS_getpgrp: case SYS_getpgid: case SYS_getsid: case SYS_setsid: case SYS_setpgid: ret = p.pid; break;
        case SYS_getuid: case SYS_getgid: case SYS_geteuid: case SYS_getegid: ret = 1000; break;
        case SYS_getrusage: case SYS_times: case SYS_sched_yield: case SYS_alarm: case SYS_setitimer: case SYS_prctl: case SYS_sysinfo: break;
        case SYS_kill: case SYS_tgkill: case SYS_tkill: {
            int sig = (int)(nr == SYS_tgkill ? a[2] : a[1]);
            int target = (int)(nr == SYS_tgkill ? a[1] : a[0]);
            auto q = by_pid(target);
            if (!q || (!q->alive && !q->zombie)) { ret = -ESRCH; break; }
            if (sig == 0) break;
            log(p, op, cls, nth, sig, fmt("->%d", target));
            if (!q->alive) break;
            if (q.get() != &p) { if (!(q->sigign >> sig & 1)) terminate(*q, sig, false); break; }
            if (sig == SIGABRT || (!((s.sigign | s.sighand) >> sig & 1))) { terminate(p, sig, true); return; }
            if (s.sighand >> sig & 1) harness("raise() with a handler");
            break;
        }
        case SYS_fork: {
            if (err) { ret = -fa->arg; break; }
            auto q = std::make_shared<Proc>(p);
            q->pid = new_pid();
            q->ppid = p.pid;
            q->root = false;
            q->role = ends(p.role, ".child") ? p.role : p.role + ".child";
            q->slot = alloc_slot();
            q->started = false;
            q->fresh_child = true;
            q->pending = true;
            q->real = 0;
            Slot &cs = sh->slot[q->slot];
            long live = s.alloc_live;
            plan_alloc(*q);
            cs.alloc_live = live;
            cs.armed = 1;
            cs.sigign = s.sigign; cs.sighand = s.sighand;
            s.child_slot = q->slot;
            // the forked process must see the child's descriptors as they are now
            procs.push_back(q);
            action = ACT_FORK;
            log(p, op, cls, nth, q->pid);
            {
                Slot &s2 = S(p);
                s2.ret = 0;
                reply(p, 0, ACT_FORK);
                if (wait_req(p)) p.pending = true;
                // SIM_FORKED follows at once: serve it without a scheduling point
                if (p.pending && S(p).nr == SIM_FORKED) {
                    q->real = (pid_t)S(p).args[0];
                    if ((long)S(p).args[0] < 0) { harness("native clone failed"); return; }
                    if (fa && starts(fa->kind, "kill_after")) { kill_tree(p, (int)fa->arg, SIGKILL); return; }
                    reply(p, q->pid);
                    if (wait_req(p)) p.pending = true;
                }
            }
            return;
        }
        case SYS_execve: {
            if (err) { ret = -fa->arg; break; }
            std::string q = norm(p.cwd, info);
            int e = walk(q);
            if (e) { ret = -e; break; }
            auto i = lookup(q);
            if (!i) { ret = -ENOENT; break; }
            if (i->dir || !(i->mode & 0100)) { ret = -EACCES; break; }
            if (i->real.empty()) { ret = -ENOEXEC; break; }
            std::string d = i->real;
            d += '\0';
            d += "LD_PRELOAD=" + g_bin.libsim;
            d += '\0';
            d += "SIMSLOT=" + std::to_string(p.slot);
            d += '\0';
            out_bytes(s, d.data(), d.size());
            // arguments, for the record
            std::string args;
            const char *c = s.in + strlen(s.in) + 1;
            for (int k = 0; k < a[0]; k++) { args += std::string(k ? " " : "") + c; c += strlen(c) + 1; }
            log(p, op, cls, nth, 0, info + ": " + args);
            harvest_alloc(p);
            p.exe = q.substr(q.rfind('/') + 1);
            p.role = p.exe;
            for (auto it = p.fds.begin(); it != p.fds.end();)
                if (it->second.second) it = p.fds.erase(it); else ++it;
            s.armed = 0;
            s.sighand = 0;
            plan_alloc(p);
            reply(p, 0, ACT_EXEC);
            if (wait_req(p)) p.pending = true;
            return;
        }
        case SYS_wait4: case SYS_waitid: {
            if (err) { ret = -fa->arg; break; }
            ProcP z;
            bool any = false;
            for (auto &q : procs) {
                if (q->ppid != p.pid) continue;
                if (nr == SYS_wait4 && (int)a[0] > 0 && q->pid != (int)a[0]) continue;
                if (nr == SYS_waitid && a[0] == P_PID && q->pid != (int)a[1]) continue;
                if (q->zombie && !z) z = q;
                if (q->alive) any = true;
            }
            if (!z) { ret = any ? 0 : -ECHILD; break; }
            if (nr == SYS_wait4) {
                z->zombie = false;
                ret = z->pid;
                int st = z->wstatus;
                out_bytes(s, &st, sizeof st);
                info = fmt("%x", (unsigned)st);
            } else {
                siginfo_t si;
                memset(&si, 0, sizeof si);
                si.si_signo = SIGCHLD;
                si.si_pid = z->pid;
                si.si_code = z->wstatus & 127 ? CLD_KILLED : CLD_EXITED;
                si.si_status = z->wstatus & 127 ? z->wstatus & 127 : z->wstatus >> 8;
                if (!(a[3] & WNOWAIT)) z->zombie = false;
                out_bytes(s, &si, sizeof si);
            }
            break;
        }
        case SYS_exit: case SYS_exit_group: {
            int code = (int)a[0] & 255;
            log(p, op, cls, nth, code);
            harvest_alloc(p);
            pid_t real = p.real;
            reply(p, code, ACT_EXIT);
            if (real) { int st; waitpid(real, &st, 0); }
            terminate(p, 0, true, code, true);
            return;
        }
        default:
            harness(fmt("system call %ld is not simulated (role %s)", nr, p.role.c_str()));
            ret = -ENOSYS;
        }
        if (op != "stat" && op != "misc") log(p, op, cls, nth, ret, info, val);
        else { hash.num((uint64_t)nr); hash.num((uint64_t)ret); hash.add(info); hash.add(cls); }
        if (sigpipe && !((s.sigign | s.sighand) >> SIGPIPE & 1)) { terminate(p, SIGPIPE, true); return; }
        if (fa && (fa->kind == "kill_after" || fa->kind == "torn")) {
            kill_tree(p, fa->kind == "torn" ? (int)fa->arg2 & 3 : (int)fa->arg, fa->kind == "torn" ? SIGKILL : fa->arg2 ? (int)fa->arg2 : SIGKILL);
            return;
        }
        reply(p, ret, action);
        if (wait_req(p)) p.pending = true;
    }

    RunResult go()
    {
        mkdirs("/opt/x1/bin"); mkdirs("/opt/x1/lib"); mkdirs("/w"); mkdirs("/home/u"); mkdirs("/tmp"); mkdirs("/dev"); mkdirs("/usr/local/lib");
        for (auto &b : bins()) {
            auto i = mkino(false);
            i->mode = 0755; i->real = b.second;
            fs["/opt/x1/bin/" + b.first] = i;
        }
        for (auto &f : sc.files) {
            std::string q = norm("/w", f.path);
            mkdirs(parent(q));
            auto i = mkino(f.dir);
            i->data = f.data; i->mode = f.mode; i->synced = f.data.size();
            i->mtime = sc.wall0_us + f.age_s * 1000000;
            fs[q] = i;
        }
        int maxphase = 0;
        for (auto &i : sc.insts) maxphase = std::max(maxphase, i.phase);
        for (int ph = 0; ph <= maxphase && r.harness.empty(); ph++) {
            t0 = elapsed;
            if (sc.same_pids) {
                procs.erase(std::remove_if(procs.begin(), procs.end(), [](const ProcP &p) { return !p->alive; }), procs.end());
                next_pid = sc.pid0;
            }
            for (size_t i = 0; i < sc.insts.size(); i++) if (sc.insts[i].phase == ph) spawn((int)i);
            loop(ph, ph == maxphase);
        }
        for (auto &p : procs) if (p->alive) terminate(*p, SIGKILL, false);
        for (auto &e : fs) if (!e.second->dir && e.second->real.empty()) r.files[e.first] = e.second->data;
        for (size_t i = 0; i < r.inst.size(); i++) {
            hash.add(r.inst[i].out); hash.add(r.inst[i].err); hash.add(r.inst[i].status());
        }
        for (auto &f : r.files) { hash.add(f.first); hash.add(f.second); }
        r.fault_fired = fired;
        if (overrun) {
            // how far a process comes in its processor time is the only thing that is not the same each time
            hash = Hash();
            for (size_t i = 0; i < r.inst.size(); i++) { hash.num(i); hash.add(r.inst[i].status()); }
        }
        r.hash = hash.h;
        r.order_hash = order.h;
        r.steps = steps;
        r.end_us = elapsed;
        return r;
    }
    void loop(int ph, bool lastphase)
    {
        for (;;) {
            if (!r.harness.empty()) return;
            std::vector<Proc *> rd;
            long wake = -1;
            bool alive = false, root_alive = false;
            for (auto &p : procs) {
                if (!p->alive) continue;
                alive = true;
                if (p->root && sc.insts[p->inst].phase == ph) root_alive = true;
                if (!p->pending) continue;
                long w;
                if (ready(*p, w)) rd.push_back(p.get());
                else if (w >= 0 && (wake < 0 || w < wake)) wake = w;
            }
            if (!alive) return;
            if (!root_alive && sc.orphans && !lastphase) return;
            if (rd.empty()) {
                if (wake >= 0) { elapsed = std::max(elapsed, wake); continue; }
                // Nothing can ever happen again: whoever is left is blocked.
                for (auto &p : procs)
                    if (p->alive) {
                        bool root = p->root;
                        int inst = p->inst;
                        log(*p, "blocked", "", 0, 0);
                        terminate(*p, SIGKILL, false);
                        if (root) r.inst[inst].how = "blocked";
                    }
                return;
            }
            if (steps > 400000) {
                for (auto &p : procs) if (p->alive) { terminate(*p, SIGXCPU, true); }
                return;
            }
            Proc *p = nullptr;
            if (rd.size() == 1) p = rd[0];
            else {
                if (sched_pos < sc.sched.size()) p = rd[(size_t)sc.sched[sched_pos++] % rd.size()];
                else for (auto q : rd) if (q->pid == last_pid) p = q;
                if (!p) p = rd[0];
            }
            auto hold = by_pid(p->pid); // keep alive
            serve(*p);
        }
    }
};
} // namespace

RunResult run(const Scenario &s)
{
    Engine e(s);
    return e.go();
}

// ------------------------------------------------------------ serialisation
std::string Scenario::save() const
{
    std::ostringstream o;
    o << "x1dst 1\n" << "prop " << prop << "\nseed " << seed << "\nwall0 " << wall0_us << "\ntick " << tick_us << "\ndisk " << disk_free
      << "\npoison " << poison << "\norphans " << orphans << "\npid0 " << pid0 << "\nsame_pids " << same_pids << "\nsched";
    for (int c : sched) o << ' ' << c;
    o << "\n";
    for (auto &f : files) o << "file " << f.mode << ' ' << f.dir << ' ' << f.age_s << ' ' << esc(f.path) << "\n data " << esc(f.data) << "\n";
    for (auto &i : insts) {
        o << "inst " << i.exe << ' ' << i.phase << ' ' << i.start_us << ' ' << i.alloc_limit << ' ' << i.cpu_s << ' ' << i.cpu_ms << "\n cwd " << esc(i.cwd) << "\n";
        for (auto &a : i.argv) o << " arg " << esc(a) << "\n";
        for (auto &e : i.env) o << " env " << esc(e.first) << "\n val " << esc(e.second) << "\n";
        o << " in " << i.in.type << ' ' << i.in.end << ' ' << i.in.maxread << "\n";
        for (auto &c : i.in.chunks) o << " chunk " << c.at_us << ' ' << esc(c.data) << "\n";
        o << " out " << i.out.type << ' ' << i.out.cap << ' ' << i.out.fail << ' ' << i.out.maxwrite << "\n";
        o << " err " << i.err.type << ' ' << i.err.cap << ' ' << i.err.fail << ' ' << i.err.maxwrite << "\n";
    }
    for (auto &f : faults)
        o << "fault " << f.inst << ' ' << f.role << ' ' << f.op << ' ' << (f.cls.empty() ? "-" : f.cls) << ' ' << f.nth << ' ' << f.kind << ' ' << f.arg << ' ' << f.arg2 << "\n";
    for (auto &e : x) o << "x " << e.first << ' ' << esc(e.second) << "\n";
    o << "end\n";
    return o.str();
}
bool Scenario::load(const std::string &text, Scenario &s, std::string &err)
{
    std::istringstream in(text);
    std::string line;
    auto rest = [](std::istringstream &l) {
        std::string t;
        std::getline(l, t);
        if (!t.empty() && t[0] == ' ') t.erase(0, 1);
        return t;
    };
    if (!std::getline(in, line) || line != "x1dst 1") { err = "not a replay file"; return false; }
    std::string envk;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k == "end") return true;
        if (k == "prop") l >> s.prop;
        else if (k == "seed") l >> s.seed;
        else if (k == "wall0") l >> s.wall0_us;
        else if (k == "tick") l >> s.tick_us;
        else if (k == "disk") l >> s.disk_free;
        else if (k == "poison") l >> s.poison;
        else if (k == "orphans") l >> s.orphans;
        else if (k == "pid0") l >> s.pid0;
        else if (k == "same_pids") l >> s.same_pids;
        else if (k == "sched") { int c; while (l >> c) s.sched.push_back(c); }
        else if (k == "file") { FileSpec f; l >> f.mode >> f.dir >> f.age_s; f.path = unesc(rest(l)); s.files.push_back(f); }
        else if (k == "data") s.files.back().data = unesc(rest(l));
        else if (k == "inst") { Instance i; l >> i.exe >> i.phase >> i.start_us >> i.alloc_limit >> i.cpu_s >> i.cpu_ms; s.insts.push_back(i); }
        else if (k == "cwd") s.insts.back().cwd = unesc(rest(l));
        else if (k == "arg") s.insts.back().argv.push_back(unesc(rest(l)));
        else if (k == "env") envk = unesc(rest(l));
        else if (k == "val") s.insts.back().env[envk] = unesc(rest(l));
        else if (k == "in") { auto &i = s.insts.back().in; l >> i.type >> i.end >> i.maxread; }
        else if (k == "chunk") { Chunk c; l >> c.at_us; c.data = unesc(rest(l)); s.insts.back().in.chunks.push_back(c); }
        else if (k == "out") { auto &i = s.insts.back().out; l >> i.type >> i.cap >> i.fail >> i.maxwrite; }
        else if (k == "err") { auto &i = s.insts.back().err; l >> i.type >> i.cap >> i.fail >> i.maxwrite; }
        else if (k == "fault") { Fault f; l >> f.inst >> f.role >> f.op >> f.cls >> f.nth >> f.kind >> f.arg >> f.arg2; if (f.cls == "-") f.cls.clear(); s.faults.push_back(f); }
        else if (k == "x") { std::string n; l >> n; s.x[n] = unesc(rest(l)); }
        else { err = "bad line: " + line; return false; }
    }
    err = "truncated";
    return false;
}
