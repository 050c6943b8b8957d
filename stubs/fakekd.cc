// Stands in for bin/justkeydding while the optimiser's loop is checked: scores a pair of distributions by a fixed rule,
// writes down every call, and is satisfied with everything once FAKE_LIMIT calls were made.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>

int main(int argc, char **argv) {
    std::string K, T, file, mode;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-K" && i + 1 < argc) K = argv[++i];
        else if (a == "-T" && i + 1 < argc) T = argv[++i];
        else if (a.size() > 1 && a[0] == '-') mode += a;
        else file = a;
    }
    unsigned h = 2166136261u;
    for (unsigned char c : file) h = (h ^ c) * 16777619u;
    double s = 0, w;
    const std::string *both[] = {&K, &T};
    for (const std::string *b : both) {
        std::istringstream is(*b);
        double v;
        while (is >> v) {
            h = h * 1664525u + 1013904223u;
            w = (h >> 8) / double(1 << 24) - 0.5;
            s += w * std::sqrt(std::fabs(v));
        }
    }
    // one of the scores of -e
    double r = s > 0.9 ? 1 : s > 0.5 ? 0.5 : s > 0.2 ? 0.3 : s > 0.0 ? 0.2 : 0;
    // ... or, asked for, something finer
    if (getenv("FAKE_FINE") && *getenv("FAKE_FINE")) r = s > 0.9 ? 1 : std::fmax(0, std::floor(99 - 15 * (0.9 - s)) / 100);
    const char *log = getenv("FAKE_LOG"), *lim = getenv("FAKE_LIMIT");
    int fd = open(log ? log : "calls.log", O_CREAT | O_WRONLY | O_APPEND, 0600);
    int fc = open(log ? (std::string(log) + ".n").c_str() : "calls.log.n", O_CREAT | O_WRONLY | O_APPEND, 0600);
    if (fd < 0 || fc < 0) return 3;
    if (write(fc, ".", 1) != 1) return 3;
    struct stat st;
    fstat(fc, &st);
    if (st.st_size > (lim ? atoi(lim) : 2000)) r = 1;
    char num[32];
    snprintf(num, sizeof num, "%g", r);
    std::string line = mode + "\t" + file + "\t" + K + "\t" + T + "\t" + num + "\n";
    if (write(fd, line.data(), line.size()) != (ssize_t)line.size()) return 3;
    puts(num);
    return 0;
}
