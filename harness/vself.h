// The configuration of a plug-in: the lines of the hidden file ".<library>.cfg" beside the library.
#ifndef VERIF_VSELF_H
#define VERIF_VSELF_H
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <string>
#include <unistd.h>
#include <vector>
static inline std::string vselfPath()
{
    static int here;
    Dl_info i;
    return dladdr((void *)&here, &i) ? i.dli_fname : "";
}
static inline std::string vselfName()
{
    std::string p = vselfPath();
    return p.substr(p.rfind('/') + 1);
}
static inline std::vector<std::string> vselfLines()
{
    std::string p = vselfPath(), l;
    std::vector<std::string> r;
    std::ifstream in(p.substr(0, p.rfind('/') + 1) + "." + vselfName() + ".cfg");
    while (std::getline(in, l)) { r.push_back(l); }
    return r;
}
static inline void vtrace(const std::string &s)
{
    const char *f = getenv("OCLINT_VTRACE");
    if (!f) { return; }
    int fd = open(f, O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd < 0) { return; }
    std::string l = s + "\n";
    (void)!write(fd, l.data(), l.size());
    close(fd);
}
#endif
