// What both drivers share: handles handed out by the library, and lines of calls.
#ifndef COMMON_H
#define COMMON_H
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

typedef std::vector<std::string> Fields;

inline std::string quoted(const std::string &s)
{
    std::string out = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\') { out += '\\'; out += static_cast<char>(c); }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else out += static_cast<char>(c);
    }
    return out + "\"";
}

// handles that the library has given and that have not been given back
struct Handles
{
    std::map<const void *, std::string> live;
    std::ostream *out;
    void fail(const std::string &what)
    {
        std::cout << "D " << quoted(what) << std::endl;
        _exit(4);
    }
    template <class T> T *made(T *p, const char *kind)
    {
        if (p != nullptr)
        {
            live[p] = kind;
        }
        return p;
    }
    void use(const void *p, const char *kind, const char *call)
    {
        auto it = live.find(p);
        if (it == live.end() || it->second != kind)
        {
            fail(std::string(call) + " was given " + (p == nullptr ? "no " : "something that is not a live ") + kind);
        }
    }
    void done(const void *p, const char *kind, const char *call)
    {
        use(p, kind, call);
        live.erase(p);
    }
};
extern Handles handles;

inline Fields split(const std::string &line)
{
    Fields f;
    std::string x;
    std::istringstream in(line);
    while (std::getline(in, x, '\t'))
    {
        f.push_back(x);
    }
    return f;
}
#endif
