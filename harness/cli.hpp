// Runs the program in a directory of its own and looks at what it left there.
#ifndef VERIF_CLI_HPP
#define VERIF_CLI_HPP

#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <csignal>
#include <dirent.h>
#include <fstream>
#include <string>
#include <vector>

#include "driver.hpp"
#include "pgm_ref.hpp"

namespace cli
{

using ref::Instance;
using ref::ul;

struct Outcome
{
    bool exited = false;  // otherwise by a signal
    int code = 0;
    bool timeout = false;
    std::string out, err;
    std::string show() const
    {
        std::string e = err.substr(0, 300);
        return drv::cat(timeout ? "timeout" : exited ? "exit code " : "signal ",
                        code, ", stderr `", e, "`");
    }
};

struct Options
{
    std::vector<std::string> env;  // NAME=VALUE
    long fsize = -1;               // RLIMIT_FSIZE, its signal ignored
    long memory = -1;              // RLIMIT_AS
    double seconds = 100;
};

inline Outcome run(const std::string& exe, const std::vector<std::string>& args,
                   const std::string& cwd, const Options& o = Options())
{
    int po[2], pe[2];
    if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) _exit(78);
    std::vector<char*> av;
    av.push_back(const_cast<char*>(exe.c_str()));
    for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    pid_t p = fork();
    if (p < 0) _exit(78);
    if (p == 0)
    {
        if (chdir(cwd.c_str())) _exit(120);
        dup2(po[1], 1);
        dup2(pe[1], 2);
        int n = open("/dev/null", O_RDONLY);
        dup2(n, 0);
        struct itimerval t;
        std::memset(&t, 0, sizeof t);
        setitimer(ITIMER_PROF, &t, nullptr);
        signal(SIGPROF, SIG_DFL);
        if (o.fsize >= 0)
        {
            struct rlimit l = {(rlim_t)o.fsize, (rlim_t)o.fsize};
            signal(SIGXFSZ, SIG_IGN);
            setrlimit(RLIMIT_FSIZE, &l);
        }
        if (o.memory >= 0)
        {
            struct rlimit l = {(rlim_t)o.memory, (rlim_t)o.memory};
            setrlimit(RLIMIT_AS, &l);
        }
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        for (auto& e : o.env) putenv(const_cast<char*>(e.c_str()));
        execv(exe.c_str(), av.data());
        _exit(121);
    }
    close(po[1]);
    close(pe[1]);
    Outcome r;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    struct pollfd f[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
    int open_ = 2;
    while (open_ > 0)
    {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double left = o.seconds - (t1.tv_sec - t0.tv_sec)
            - (t1.tv_nsec - t0.tv_nsec) * 1e-9;
        if (left <= 0)
        {
            r.timeout = true;
            break;
        }
        if (poll(f, 2, (int)(left * 1000) + 1) < 0) continue;
        for (int i = 0; i < 2; ++i)
        {
            if (f[i].fd < 0 || !f[i].revents) continue;
            char b[4096];
            ssize_t n = read(f[i].fd, b, sizeof b);
            if (n > 0)
            {
                std::string& s = i ? r.err : r.out;
                if (s.size() < 100000) s.append(b, n);
            }
            else
            {
                f[i].fd = -1;
                --open_;
            }
        }
    }
    close(po[0]);
    close(pe[0]);
    if (r.timeout) kill(p, SIGKILL);
    int st = 0;
    waitpid(p, &st, 0);
    r.exited = WIFEXITED(st);
    r.code = r.exited ? WEXITSTATUS(st) : WTERMSIG(st);
    if (r.exited && (r.code == 120 || r.code == 121))
    {
        std::fprintf(stderr, "cannot start %s\n", exe.c_str());
        _exit(78);
    }
    return r;
}

// Everything a run could change about a file.
struct File
{
    bool exists = false;
    mode_t mode = 0;
    ino_t inode = 0;
    off_t size = 0;
    long sec = 0, nsec = 0;
    std::string content;
    bool same(const File& o) const
    {
        return exists == o.exists && mode == o.mode && inode == o.inode
            && size == o.size && sec == o.sec && nsec == o.nsec
            && content == o.content;
    }
};

inline File look(const std::string& path)
{
    File f;
    struct stat s;
    if (lstat(path.c_str(), &s)) return f;
    f.exists = true;
    f.mode = s.st_mode;
    f.inode = s.st_ino;
    f.size = s.st_size;
    f.sec = s.st_mtim.tv_sec;
    f.nsec = s.st_mtim.tv_nsec;
    if (S_ISREG(s.st_mode))
    {
        std::ifstream i(path, std::ios::binary);
        f.content.assign(std::istreambuf_iterator<char>(i),
                         std::istreambuf_iterator<char>());
    }
    return f;
}

inline void put(const std::string& path, const std::string& text)
{
    std::ofstream o(path, std::ios::binary);
    o << text;
    o.close();
    if (!o) _exit(78);
}

inline void clean(const std::string& dir)
{
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (dirent* e = readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = dir + "/" + n;
        struct stat s;
        if (!lstat(p.c_str(), &s) && S_ISDIR(s.st_mode))
        {
            clean(p);
            rmdir(p.c_str());
        }
        else unlink(p.c_str());
    }
    closedir(d);
}

// A directory of the case, empty.
inline std::string fresh(const drv::Ctx& c)
{
    if (c.scratch.empty()) _exit(78);
    std::string d = c.scratch + "/w";
    mkdir(d.c_str(), 0755);
    clean(d);
    return d;
}

inline std::string text(ul w, ul h, ul max, const std::vector<ul>& v)
{
    std::string s = drv::cat("P2\n", w, " ", h, "\n", max, "\n");
    for (size_t i = 0; i < v.size(); ++i)
        s += std::to_string(v[i]) + ((i + 1) % w ? " " : "\n");
    return s;
}

inline std::string text(gen::Rng& r, ul w, ul h, ul max,
                        const std::vector<ul>& v)
{
    if (r.chance(2, 3)) return text(w, h, max, v);
    std::vector<std::string> t = {"P2", std::to_string(w), std::to_string(h),
                                  std::to_string(max)};
    for (ul x : v) t.push_back(std::to_string(x));
    return pgm::join(r, t);
}

// The map of the documented algorithm.
inline ref::Labeling expected(const Instance& in)
{
    ref::Model m(in);
    double least = ref::min_threshold(m, ref::candidates(m));
    ref::Avail a = ref::initial(m, least);
    if (least < 0 || !ref::greedy(m, least, a))
    {
        std::fprintf(stderr, "no reference map of %s\n", in.str().c_str());
        _exit(78);
    }
    return ref::labeling_of(in, a);
}

// Empty if the text is the complete map.
inline std::string compare(const std::string& got, const Instance& in,
                           const ref::Labeling& want)
{
    pgm::Parsed p = pgm::parse(got);
    if (p.verdict == pgm::REJECT) return "not a plain PGM: " + p.why;
    if (got.empty() || got.back() != '\n') return "the last line is cut";
    if (p.w != in.W || p.h != in.H)
        return drv::cat("size ", p.w, "x", p.h, " instead of ", in.W, "x",
                        in.H);
    if (p.max != in.D)
        return drv::cat("maximal value ", p.max, " instead of ", in.D);
    if (p.data != want)
    {
        std::string a, b;
        for (ul v : p.data) a += " " + std::to_string(v);
        for (ul v : want) b += " " + std::to_string(v);
        return "map" + a + " instead of" + b;
    }
    return "";
}

// Value of key= in "a=b;c=d".
inline std::string aux(const drv::Ctx& c, const std::string& key)
{
    size_t p = (";" + c.aux).find(";" + key + "=");
    if (p == std::string::npos) return "";
    p += key.size() + 1;
    return c.aux.substr(p, c.aux.find(';', p) == std::string::npos
                               ? std::string::npos
                               : c.aux.find(';', p) - p);
}

}

#endif
