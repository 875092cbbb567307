//
// Batch executor for the real x1sim / x1algc / objfile programs.
//
// Reads a batch file of requests, executes every request in a fresh child
// process inside a private scratch directory, and writes the observations
// (exit status or signal, stdout, stderr, selected files).
//
// "x1sim" requests run the simulator's own main() (linked into this binary
// under another name) in a forked child, so that a request costs a fork
// instead of an exec; the Algol compiler is still found through PATH and
// exec'ed by the simulator itself, exactly as a user's invocation would.
//
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

int x1sim_main(int argc, char *argv[]);

static FILE *in, *out;
static const uint32_t SKIPPED = 0xfffffffe;

static uint32_t get32()
{
    uint32_t v;
    if (fread(&v, 4, 1, in) != 1) {
        fprintf(stderr, "runner: short batch\n");
        _exit(3);
    }
    return v;
}
static std::string getstr()
{
    uint32_t n = get32();
    std::string s(n, 0);
    if (n && fread(&s[0], 1, n, in) != n) {
        fprintf(stderr, "runner: short batch\n");
        _exit(3);
    }
    return s;
}
static void put32(uint32_t v) { fwrite(&v, 4, 1, out); }
static void putstr(const std::string &s)
{
    put32(s.size());
    fwrite(s.data(), 1, s.size(), out);
}
static std::string slurp(const char *name, size_t max)
{
    std::string r;
    int fd = open(name, O_RDONLY);
    if (fd < 0)
        return r;
    char buf[65536];
    ssize_t k;
    while (r.size() < max && (k = read(fd, buf, sizeof buf)) > 0)
        r.append(buf, k);
    close(fd);
    return r;
}
// Remove everything in a directory (never follows links).
static void clean(int fd)
{
    DIR *d = fdopendir(fd);
    if (!d)
        return;
    while (dirent *e = readdir(d)) {
        if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)
            continue;
        if (unlinkat(dirfd(d), e->d_name, 0) < 0) {
            int s = openat(dirfd(d), e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
            if (s >= 0) {
                clean(s);
                unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR);
            }
        }
    }
    closedir(d);
}
static void spew(const char *name, const std::string &s)
{
    int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || (s.size() && write(fd, s.data(), s.size()) != (ssize_t)s.size())) {
        fprintf(stderr, "runner: cannot write %s\n", name);
        _exit(3);
    }
    close(fd);
}

int main(int argc, char **argv)
{
    // under the name x1sim: the simulator itself
    const char *base = strrchr(argv[0], '/');
    if (strcmp(base ? base + 1 : argv[0], "x1sim") == 0)
        return x1sim_main(argc, argv);
    // runner BATCH OUT SCRATCHDIR
    in  = fopen(argv[1], "rb");
    out = fopen(argv[2], "wb");
    if (!in || !out || chdir(argv[3]) < 0) {
        fprintf(stderr, "runner: bad arguments\n");
        return 3;
    }
    uint32_t n = get32();
    int slow   = 0;
    sigset_t chld;
    sigemptyset(&chld);
    sigaddset(&chld, SIGCHLD);
    sigprocmask(SIG_BLOCK, &chld, nullptr);
    for (uint32_t i = 0; i < n; i++) {
        uint32_t cpu_limit = get32();
        uint32_t out_max   = get32();
        std::vector<std::string> args(get32());
        for (auto &a : args)
            a = getstr();
        uint32_t nenv = get32();
        std::vector<std::string> env(nenv);
        for (auto &a : env)
            a = getstr();
        uint32_t nf = get32();
        std::vector<std::pair<std::string, std::string>> files(nf);
        for (auto &f : files) {
            f.first  = getstr();
            f.second = getstr();
        }
        std::string input = getstr();
        std::vector<std::string> wanted(get32());
        for (auto &w : wanted)
            w = getstr();

        if (slow >= 3) {
            // Too many runaway executions in this batch: skip the rest.
            put32(SKIPPED);
            putstr("");
            putstr("");
            for (size_t k = 0; k < wanted.size(); k++) {
                put32(0);
                putstr("");
            }
            continue;
        }

        // Clean the scratch directory.
        clean(open(".", O_RDONLY | O_DIRECTORY));
        for (auto &f : files)
            spew(f.first.c_str(), f.second);
        spew("_stdin", input);
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            sigprocmask(SIG_UNBLOCK, &chld, nullptr);
            int fd = open("_stdin", O_RDONLY);
            dup2(fd, 0);
            close(fd);
            fd = open("_stdout", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
            dup2(fd, 1);
            close(fd);
            fd = open("_stderr", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
            dup2(fd, 2);
            close(fd);
            rlimit rl{ cpu_limit, cpu_limit + 2 };
            setrlimit(RLIMIT_CPU, &rl);
            rlimit fl{ 64u << 20, 64u << 20 };
            setrlimit(RLIMIT_FSIZE, &fl);
            if (args[0].find("asan") == std::string::npos) {
                rlimit al{ 2ul << 30, 2ul << 30 };
                setrlimit(RLIMIT_AS, &al);
            }
            rlimit cl{ 0, 0 };
            setrlimit(RLIMIT_CORE, &cl);
            for (auto &e : env)
                putenv(const_cast<char *>(e.c_str()));
            std::vector<char *> av;
            for (auto &a : args)
                av.push_back(const_cast<char *>(a.c_str()));
            av.push_back(nullptr);
            fclose(in);
            // Do not let the child's exit() flush the parent's buffer again
            // (it is empty: flushed just before the fork).
            if (strcmp(av[0], "x1sim") == 0)
                exit(x1sim_main(av.size() - 1, av.data()));
            // whatever the caller ignores or blocks, the programs start afresh
            for (int g = 1; g < 32; g++)
                signal(g, SIG_DFL);
            sigset_t none;
            sigemptyset(&none);
            sigprocmask(SIG_SETMASK, &none, nullptr);
            execvp(av[0], av.data());
            _exit(127);
        }
        int st = 0;
        setpgid(pid, pid);
        bool killed = false;
        timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        while (waitpid(pid, &st, WNOHANG) == 0) {
            timespec ts{ 1, 0 };
            sigtimedwait(&chld, nullptr, &ts);
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (!killed && t1.tv_sec - t0.tv_sec > 60 + 2 * (long)cpu_limit) {
                // Neither finished nor using its processor time.
                killed = true;
                kill(-pid, SIGKILL);
            }
        }
        kill(-pid, SIGKILL); // whatever it left behind
        if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)))
            slow++;
        if (WIFSIGNALED(st)) {
            put32(1000 + WTERMSIG(st));
        } else
            put32(WEXITSTATUS(st));
        putstr(slurp("_stdout", out_max));
        putstr(slurp("_stderr", 20000));
        for (auto &w : wanted) {
            struct stat sb;
            put32(stat(w.c_str(), &sb) == 0);
            putstr(slurp(w.c_str(), 16u << 20));
        }
    }
    fclose(out);
    return 0;
}
