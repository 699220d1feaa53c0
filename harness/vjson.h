// Minimal JSON output shared by the harness plug-ins (bytes >= 0x80 are written as \u00XX,
// i.e. strings are byte strings read as latin-1 on the other side).
#ifndef VERIF_VJSON_H
#define VERIF_VJSON_H
#include <cstdio>
#include <string>
inline std::string vq(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
#endif
