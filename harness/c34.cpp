// C34: every unit in every combination of process settings (rounding mode, C and C++ locale, errno) and in every phase of a
// program (before main, threads, forked children, signal handlers, unwinding, exit), each in a process of its own; and the
// state of the process is afterwards what it was.
#include "mc.hpp"
#include "units.hpp"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <fcntl.h>
#include <iostream>
#include <locale.h>
#include <locale>
#include <pthread.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <ucontext.h>
#include <xmmintrin.h>
using namespace units;

enum Phase { MAIN, BEFORE_MAIN, STATIC_END, ATEXIT_EARLY, ATEXIT_LATE, TLS_END, THREAD, THREAD_TLS_END, KEY_END, FORK, SIGNAL, UNWIND, CATCH, QUICK_EXIT, BARE, PHASES };
static const char *const phase_name[PHASES] = {"in main", "before main", "in a static destructor", "in an exit handler set before main", "in an exit handler set in main", "in a thread-local destructor of the main thread",
                                               "in a thread", "in a thread-local destructor of a thread", "in a thread key destructor", "in a forked child", "in a signal handler", "while an exception unwinds",
                                               "in a catch block", "in a quick_exit handler", "without standard streams, directory, environment and free descriptors"};
static const int FILEFD = FAMILIES; // a file whose descriptor is the lowest free one
static const int OUT = 199;         // where a child reports

// ---- the settings of the process
struct Odd : std::ctype<char> { // every class for every character, and other cases
    static const mask *all_of() {
        static mask m[table_size];
        for (size_t i = 0; i < table_size; i++) m[i] = (mask)(i % 3 ? ~0 : 0);
        return m;
    }
    Odd() : std::ctype<char>(all_of()) {}
    char do_toupper(char c) const override { return (char)(c + 1); }
    char do_tolower(char c) const override { return (char)(c ^ 3); }
    const char *do_toupper(char *b, const char *e) const override { for (; b < e; b++) *b = (char)(*b + 1); return e; }
    const char *do_tolower(char *b, const char *e) const override { for (; b < e; b++) *b = (char)(*b ^ 3); return e; }
};
struct Grouped : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "no"; }
};
static const char *const clocales[] = {"C", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1", "C.utf8"};
enum { NR = 6, NL = 5, NX = 2, NE = 4, NENV = NR * NL * NX * NE };
static const int errnos[NE] = {0, EINTR, ERANGE, EAGAIN};
static locale_t turkish;
static std::locale *odd_locale;
static bool have_locales;
static int env_errno;
static void set_errno() { errno = env_errno; }
struct Env {
    int r, l, x, e;
    // Below NENV: every combination. From NENV on: one value of errno each.
    explicit Env(int k) : r(k < NENV ? k % NR : 0), l(k < NENV ? k / NR % NL : 0), x(k < NENV ? k / NR / NL % NX : 0), e(k < NENV ? errnos[k / NR / NL / NX] : k - NENV + 1) {}
    int away() const { return !!r + !!l + !!x + !!e; }
    std::string text() const {
        static const char *const rn[NR] = {"", ", rounding up", ", rounding down", ", rounding towards zero", ", denormals flushed", ", all floating-point exceptions flagged"};
        std::string s = rn[r];
        if (l) s += l == 4 ? ", Turkish locale of the thread" : mc::strf(", locale %s", clocales[l]);
        if (x) s += ", unusual C++ locale";
        if (e) s += mc::strf(", errno %d", e);
        return s;
    }
    void enter() const {
        if (l == 4) uselocale(turkish);
        else if (l) setlocale(LC_ALL, clocales[l]);
        if (x) std::locale::global(*odd_locale);
        env_errno = e;
        static const int fe[NR] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO, FE_TONEAREST, FE_TONEAREST};
        fesetround(fe[r]);
        if (r == 4) _mm_setcsr(_mm_getcsr() | 0x8040);
        if (r == 5) feraiseexcept(FE_ALL_EXCEPT);
    }
    void leave() const {
        fesetround(FE_TONEAREST);
        _mm_setcsr(0x1f80);
        if (r == 5) feclearexcept(FE_ALL_EXCEPT);
        if (x) std::locale::global(std::locale::classic());
        if (l) uselocale(LC_GLOBAL_LOCALE), setlocale(LC_ALL, "C");
    }
    std::string changed() const { // what a call left other than it was
        static const int fe[NR] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO, FE_TONEAREST, FE_TONEAREST};
        if (fegetround() != fe[r] || ((_mm_getcsr() & 0x8040) != (r == 4 ? 0x8040u : 0u))) return "the rounding mode";
        if (uselocale((locale_t)0) != (l == 4 ? turkish : LC_GLOBAL_LOCALE)) return "the locale of the thread";
        const char *have = setlocale(LC_ALL, nullptr);
        if (strcmp(have, l == 4 ? "C" : clocales[l])) return "the C locale";
        if (x ? !(std::locale() == *odd_locale) : !(std::locale() == std::locale::classic())) return "the C++ locale";
        return "";
    }
};
extern char **environ;
// Everything else of the process that a call could change.
static std::string world(bool descriptors) {
    std::string s = "signal mask ";
    auto put = [&](const char *name, const void *p, size_t n) { s += mc::hex(p, n, 4096) + "; " + name + " "; };
    sigset_t m;
    memset(&m, 0, sizeof m);
    pthread_sigmask(SIG_BLOCK, nullptr, &m);
    put("signal handlers", &m, 8);
    for (int i = 1; i < 32; i++) {
        struct sigaction a = {};
        sigaction(i, nullptr, &a);
        void *h = (void *)a.sa_sigaction;
        s += mc::hex(&h, 8) + mc::hex(&a.sa_flags, 4);
    }
    s += "; environment ";
    for (char **e = environ; e && *e; e++) s += std::string(*e) + ",";
    char d[4096] = "";
    if (!getcwd(d, sizeof d)) strcpy(d, "none");
    s += std::string("; directory ") + d;
    mode_t u = umask(0);
    umask(u);
    s += "; file mode mask " + std::to_string(u) + "; open files ";
    if (descriptors)
        for (int f = 0; f < 40; f++) s += fcntl(f, F_GETFD) >= 0 ? '1' : '0';
    s += "; random numbers " + std::to_string(rand()) + " " + std::to_string(lrand48());
    srand(4711), srand48(815);
    s += "; timers ";
    for (int t : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) {
        struct itimerval v = {};
        getitimer((__itimer_which_t)t, &v);
        s += v.it_value.tv_sec || v.it_value.tv_usec ? '1' : '0';
    }
    s += "; limits ";
    for (int r : {RLIMIT_CORE, RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_FSIZE, RLIMIT_CPU}) {
        struct rlimit l;
        getrlimit((__rlimit_resource_t)r, &l);
        s += std::to_string((unsigned long long)l.rlim_cur) + ",";
    }
    s += "; stream formats ";
    for (std::ostream *o : {&std::cout, (std::ostream *)&std::cerr, (std::ostream *)&std::clog})
        s += std::to_string((long)o->flags()) + "," + std::to_string((int)o->precision()) + "," + std::to_string((int)o->width()) + "," + std::to_string((int)o->fill()) + (o->good() ? "" : "bad") + " ";
    void *h[2] = {(void *)std::get_new_handler(), (void *)std::get_terminate()};
    s += "; handlers ";
    s += mc::hex(h, sizeof h);
    return s;
}
static std::string difference(const std::string &a, const std::string &b) {
    size_t i = 0, start = 0;
    for (; i < a.size() && i < b.size() && a[i] == b[i]; i++)
        if (a[i] == ';') start = i + 2;
    size_t e = a.find(';', start);
    return "the state of the process changed: " + a.substr(start, std::min(e == std::string::npos ? e : e - start, (size_t)200)) + " became " + b.substr(start, 200);
}

// ---- what runs in a child
struct What {
    int f, a;
    int64_t n;
    std::unique_ptr<Unit> u;
    Out want;
    Bytes b;
    What(int f_, int a_, int64_t n_) : f(f_), a(a_), n(n_) {
        if (f != FILEFD) {
            u = std::make_unique<Unit>(f, a, n);
            want = u->want;
            return;
        }
        b = D(n, 21, n);
        want = dig(a, b, is_shake(a) ? digest_size[a] * 8 : 0) + "|";
    }
    std::string text() const { return f == FILEFD ? mc::strf("file of a length by its lowest descriptor: %s, %" PRId64, alg_name[a], n) : label(f, a, n); }
    std::unique_ptr<Rec> instance() const {
        if (u) return u->instance();
        auto r = std::make_unique<Rec>(0, false);
        size_t ds = digest_size[a];
        uint8_t *o = r->out(ds);
        int d = (int)syscall(SYS_memfd_create, "x", 0);
        FILE *fl = fdopen(d, "w+b");
        if (!fl || fwrite(b.data(), 1, b.size(), fl) != b.size()) abort();
        rewind(fl);
        r->cleanup.push_back([fl] { fclose(fl); });
        int al = a;
        r->step([=](Out &s) { LIB(api::hash[al].encode_f(fl, o, ds * 8)); s += S(o, ds); });
        return r;
    }
    void compare(const Out &got, const std::string &how) const {
        if (u) return u->compare(got, how);
        if (got != want) mc::fail(text() + how + ": got " + mc::hex(got.data(), got.size(), 16) + " want " + mc::hex(want.data(), want.size(), 16));
    }
};
struct Job {
    bool on = false;
    int phase = 0, f = 0, a = 0, full = 0, thorough = 0;
    std::vector<What> what;
    int runs = 0; // bodies to report
};
static Job *job; // never destroyed
static void say(const std::string &s) {
    size_t at = 0;
    while (at < s.size()) {
        ssize_t w = write(OUT, s.data() + at, s.size() - at);
        if (w <= 0) _exit(90);
        at += (size_t)w;
    }
}
static void body() {
    bool bare = job->phase == BARE;
    std::string msg;
    uint64_t n = 0;
    try {
        before_call() = set_errno;
        for (auto &w : job->what) {
            for (int k = 0; k < NENV + (job->phase == MAIN ? 140 : 0); k++) {
                Env e(k);
                if ((e.l && !have_locales) || (bare && e.l && e.l != 4) || (!job->full && e.away() > 1)) continue;
                clk::now() = NOW;
                bool first = k == 0;
                std::string before;
                auto r = w.instance();
                struct rlimit lim = {}, low;
                if (bare) {
                    getrlimit(RLIMIT_NOFILE, &lim);
                    low = lim;
                    low.rlim_cur = 0;
                    setrlimit(RLIMIT_NOFILE, &low);
                }
                if (first) world(true), before = world(true);
                Out got;
                std::string thrown;
                e.enter();
                try {
                    for (auto &s : r->steps) s(got);
                }
                catch (const std::exception &x) {
                    thrown = x.what();
                }
                std::string ch = e.changed();
                e.leave();
                std::string after = first ? world(true) : "";
                if (bare) setrlimit(RLIMIT_NOFILE, &lim);
                n++;
                std::string how = std::string(", ") + phase_name[job->phase] + e.text();
                if (thrown.size()) mc::fail(w.text() + how + ": unexpected exception: " + thrown);
                w.compare(got, how);
                if (ch.size()) mc::fail(w.text() + how + ": " + ch + " was changed");
                if (before != after) mc::fail(w.text() + how + ": " + difference(before, after));
            }
        }
        before_call() = nullptr;
    }
    catch (const mc::Failure &f) {
        msg = f.msg;
    }
    catch (const std::exception &x) {
        msg = std::string("unexpected exception: ") + x.what();
    }
    if (msg.empty() && !bare) {
        fflush(stdout);
        std::cout.flush();
        if (lseek(1, 0, SEEK_END) > 0 || lseek(2, 0, SEEK_END) > 0) msg = "something was written to the standard output or error stream";
    }
    if (msg.size()) {
        say("FAIL " + msg);
        _exit(1);
    }
    say("ok " + std::to_string(n) + "\n");
}
struct Tls {
    bool on = false;
    ~Tls() {
        if (on) body();
    }
};
static thread_local Tls tls;
static void quick() { body(); }
static std::vector<int64_t> lengths(int f, int phase, bool T) {
    if (f == PROGS) return T ? std::vector<int64_t>{0, 1, 2, 3} : std::vector<int64_t>{phase % 3};
    std::vector<int64_t> v{0, 1, 5, 20, 63, 130};
    if (f == FILEH || f == FILEFD) v = {1, 600, 1024, 3000};
    if (f == SHAKEF || f == ENCODER) v = {8, 41, 300, 1700};
    if (f == SHORT) v = {0, 2, 5, 9, 17, 23};
    if (T) for (int64_t i = 2; i < 100; i += 7) v.push_back(i);
    return v;
}
static int numbers(int f) { return f == FILEFD ? 16 : algs(f); }
// Constructed before main, after every table of this file and of the reference models.
static struct Life {
    bool on = false;
    Life() {
        const char *s = getenv("PGFE_C34");
        job = new Job;
        if (!s) return;
        job->on = true;
        sscanf(s, "%d,%d,%d,%d,%d", &job->phase, &job->f, &job->a, &job->full, &job->thorough);
        unsetenv("PGFE_C34");
        odd_locale = new std::locale(std::locale(std::locale::classic(), new Odd), new Grouped);
        turkish = newlocale(LC_ALL_MASK, clocales[1], (locale_t)0);
        have_locales = turkish && setlocale(LC_ALL, clocales[1]) && setlocale(LC_ALL, clocales[2]) && setlocale(LC_ALL, clocales[3]);
        setlocale(LC_ALL, "C");
        for (int64_t n : lengths(job->f, job->phase, job->thorough)) job->what.emplace_back(job->f, job->a, n);
        srand(4711), srand48(815);
        if (job->phase == BEFORE_MAIN) body();
        if (job->phase == ATEXIT_EARLY) atexit(body);
        on = job->phase == STATIC_END;
    }
    ~Life() {
        if (on) body();
    }
} life;
static void in_main() {
    switch (job->phase) {
    case ATEXIT_LATE:
        body();
        atexit(body);
        return;
    case TLS_END:
        tls.on = true;
        break;
    case THREAD:
        std::thread(body).join();
        break;
    case THREAD_TLS_END:
        std::thread([] {
            tls.on = true;
            body();
        }).join();
        break;
    case KEY_END: {
        static pthread_key_t k;
        pthread_key_create(&k, [](void *) { body(); });
        std::thread([] {
            pthread_setspecific(k, &k);
            body();
        }).join();
        break;
    }
    case FORK: {
        body();
        pid_t p = fork();
        if (!p) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            body();
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (st) _exit(91);
        break;
    }
    case SIGNAL: {
        static char stack[1 << 20];
        stack_t ss = {};
        ss.ss_sp = stack;
        ss.ss_size = sizeof stack;
        sigaltstack(&ss, nullptr);
        struct sigaction a = {};
        a.sa_handler = [](int) { body(); };
        a.sa_flags = SA_ONSTACK;
        sigaction(SIGUSR1, &a, nullptr);
        raise(SIGUSR1);
        break;
    }
    case UNWIND:
        try {
            struct R {
                ~R() { body(); }
            } r;
            throw 1;
        }
        catch (int) {
        }
        break;
    case CATCH:
        try {
            throw std::string("x");
        }
        catch (const std::string &) {
            body();
        }
        break;
    case QUICK_EXIT:
        body();
        at_quick_exit(quick);
        quick_exit(0);
    case BARE: {
        char d[] = "/tmp/pgfe-c34-XXXXXX";
        if (!mkdtemp(d) || chdir(d) || rmdir(d)) _exit(92);
        clearenv();
        for (int f = 0; f < OUT; f++) close(f);
        body();
        _exit(0);
    }
    }
    body();
}
void selfcheck() {
    if (job->on) return in_main();
    units::selfcheck();
}

// ---- the parent
static int bodies(int phase) {
    switch (phase) {
    case MAIN: case BARE: return 1;
    case THREAD_TLS_END: case KEY_END: case TLS_END: case FORK: return phase == TLS_END ? 2 : 3;
    default: return 2;
    }
}
static std::string locale_dir;
static void remove_locales() {
    if (locale_dir.empty()) return;
    for (int i = 1; i < 3; i++) {
        std::string d = locale_dir + "/" + clocales[i];
        static const char *const parts[] = {"LC_ADDRESS", "LC_COLLATE", "LC_CTYPE", "LC_IDENTIFICATION", "LC_MEASUREMENT", "LC_MONETARY", "LC_NAME", "LC_NUMERIC", "LC_PAPER", "LC_TELEPHONE", "LC_TIME", "LC_MESSAGES/SYS_LC_MESSAGES"};
        for (auto *p : parts) unlink((d + "/" + p).c_str());
        rmdir((d + "/LC_MESSAGES").c_str());
        rmdir(d.c_str());
    }
    unlink((locale_dir + "/C.utf8").c_str());
    rmdir(locale_dir.c_str());
}
static void make_locales() {
    static bool done = false;
    if (done) return;
    done = true;
    char d[] = "/tmp/pgfe-c34-XXXXXX";
    if (!mkdtemp(d)) return;
    locale_dir = d;
    atexit(remove_locales);
    static const char *const args[2][2] = {{"tr_TR", "ISO-8859-9"}, {"de_DE", "ISO-8859-1"}};
    for (int i = 0; i < 2; i++) {
        std::string to = locale_dir + "/" + clocales[i + 1];
        pid_t p = fork();
        if (!p) {
            int n = open("/dev/null", O_RDWR);
            dup2(n, 1), dup2(n, 2);
            execlp("localedef", "localedef", "--no-archive", "-i", args[i][0], "-f", args[i][1], to.c_str(), (char *)nullptr);
            _exit(127);
        }
        int st;
        waitpid(p, &st, 0);
    }
    if (symlink("/usr/lib/locale/C.utf8", (locale_dir + "/C.utf8").c_str())) {}
    setenv("LOCPATH", locale_dir.c_str(), 1);
    setlocale(LC_ALL, clocales[1]) && setlocale(LC_ALL, clocales[2]) ? mc::count("processes_with_installed_locales")++ : mc::count("processes_without_installed_locales")++;
    setlocale(LC_ALL, "C");
}
// v = phase, family, algorithm, every combination of settings (or the default and each setting on its own)
void run_case(const mc::Case &c) {
    static uint64_t &ex = mc::count("executions"), &pr = mc::count("processes"), &st = mc::count("states");
    make_locales();
    int pfd[2], out = (int)syscall(SYS_memfd_create, "out", 0);
    if (pipe(pfd)) abort();
    std::string v = mc::strf("%d,%d,%d,%d,%d", (int)c.v[0], (int)c.v[1], (int)c.v[2], (int)c.v[3], (int)c.v[4]);
    pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(pfd[1], OUT), dup2(out, 1), dup2(out, 2);
        for (int f = 3; f < OUT; f++) close(f);
        setenv("PGFE_C34", v.c_str(), 1);
        execl("/proc/self/exe", "c34", "--selfcheck", (char *)nullptr);
        _exit(126);
    }
    close(pfd[1]);
    std::string got;
    char buf[4096];
    ssize_t k;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0) got.append(buf, (size_t)k), mc::tick();
    close(pfd[0]);
    int status = 0;
    waitpid(p, &status, 0);
    std::string err;
    k = pread(out, buf, sizeof buf - 1, 0);
    close(out);
    if (k > 0) err.assign(buf, (size_t)k);
    pr++;
    mc::tick();
    size_t f = got.find("FAIL ");
    if (f != std::string::npos) mc::fail(got.substr(f + 5, 1500));
    size_t e = err.find("ERROR: AddressSanitizer");
    CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the process %s %d: %s", WIFEXITED(status) ? "ended with status" : "was killed by signal", WIFEXITED(status) ? WEXITSTATUS(status) : WTERMSIG(status),
          err.substr(e == std::string::npos ? 0 : e, 600).c_str());
    int n = 0;
    for (size_t i = 0; (i = got.find("ok ", i)) != std::string::npos; i += 3) {
        n++;
        uint64_t x = strtoull(got.c_str() + i + 3, nullptr, 10);
        ex += x, st += x;
    }
    CHECK(n == bodies((int)c.v[0]), "the process ended after %d of %d rounds", n, bodies((int)c.v[0]));
    std::string o = std::to_string(c.v[1]) + "/" + std::to_string(c.v[2]);
    for (int64_t x : lengths((int)c.v[1], (int)c.v[0], c.v[4])) o += std::to_string(x), mc::outcome(o.data(), o.size());
}
std::string describe(const mc::Case &c) {
    int f = (int)c.v[1], a = (int)c.v[2];
    return mc::strf("%s, %s, %s", f == FILEFD ? mc::strf("file by its lowest descriptor: %s", alg_name[a]).c_str() : f == PROGS ? all()[(size_t)a].name.c_str() : mc::strf("%s (%d)", fam_name[f], a).c_str(),
                    phase_name[c.v[0]], c.v[3] ? "every combination of settings" : "each setting");
}
void enumerate() {
    bool T = mc::thorough();
    for (int ph = 0; ph < PHASES; ph++)
        for (int f = 0; f <= FILEFD; f++)
            for (int a = 0; a < numbers(f); a++) {
                bool full = ph == MAIN || T || (f == PROGS && (ph == BEFORE_MAIN || ph == STATIC_END || ph == THREAD));
                mc::at(1, {ph, f, a, full, T});
            }
}
