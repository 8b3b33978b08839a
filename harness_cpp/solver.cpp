// C++ contexts, builders and systems, driven by lines of calls on standard input.
#include "geqslib.h"
#include "common.h"

Handles handles;
#define C "context"
#define B "builder"
#define Y "system"
#define T "text"
extern "C"
{
    void *__real_new_context_hash_map();
    void *__wrap_new_context_hash_map() { return handles.made(__real_new_context_hash_map(), C); }
    void *__real_new_default_context_hash_map();
    void *__wrap_new_default_context_hash_map() { return handles.made(__real_new_default_context_hash_map(), C); }
    void __real_add_const_to_ctx(void *, const char *, double);
    void __wrap_add_const_to_ctx(void *p, const char *n, double v) { handles.use(p, C, "add_const_to_ctx"); __real_add_const_to_ctx(p, n, v); }
    const char *__real_solve_equation(const char *, const void *, double, double, double, double, unsigned);
    const char *__wrap_solve_equation(const char *e, const void *p, double g, double a, double b, double m, unsigned l)
    {
        handles.use(p, C, "solve_equation");
        return handles.made(__real_solve_equation(e, p, g, a, b, m, l), T);
    }
    const void *__real_new_system_builder(const char *, const void *);
    const void *__wrap_new_system_builder(const char *e, const void *p) { handles.use(p, C, "new_system_builder"); return handles.made(__real_new_system_builder(e, p), B); }
    int __real_try_constrain_with(void *, const char *);
    int __wrap_try_constrain_with(void *p, const char *e) { handles.use(p, B, "try_constrain_with"); return __real_try_constrain_with(p, e); }
    int __real_is_fully_constrained(void *);
    int __wrap_is_fully_constrained(void *p) { handles.use(p, B, "is_fully_constrained"); return __real_is_fully_constrained(p); }
    const void *__real_build_system(void *);
    const void *__wrap_build_system(void *p) { handles.done(p, B, "build_system"); return handles.made(__real_build_system(p), Y); }
    void __real_debug_system_builder(const void *);
    void __wrap_debug_system_builder(const void *p) { handles.use(p, B, "debug_system_builder"); }
    int __real_specify_variable(void *, const char *, double, double, double);
    int __wrap_specify_variable(void *p, const char *v, double g, double a, double b) { handles.use(p, Y, "specify_variable"); return __real_specify_variable(p, v, g, a, b); }
    const char *__real_solve_system(void *, double, unsigned);
    const char *__wrap_solve_system(void *p, double m, unsigned l) { handles.done(p, Y, "solve_system"); return handles.made(__real_solve_system(p, m, l), T); }
    void __real_free_context_hash_map(void *);
    void __wrap_free_context_hash_map(void *p) { handles.done(p, C, "free_context_hash_map"); __real_free_context_hash_map(p); }
    void __real_free_system_builder(void *);
    void __wrap_free_system_builder(void *p) { handles.done(p, B, "free_system_builder"); __real_free_system_builder(p); }
    void __real_free_system(void *);
    void __wrap_free_system(void *p) { handles.done(p, Y, "free_system"); __real_free_system(p); }
    void __real_free_solution_string(char *);
    void __wrap_free_solution_string(char *p) { handles.done(p, T, "free_solution_string"); __real_free_solution_string(p); }
}

using namespace ngineer;
struct World
{
    std::map<int, std::unique_ptr<ContextHashMap>> ctx;
    std::map<int, std::unique_ptr<SystemBuilder>> bld;
    std::map<int, std::unique_ptr<ConstrainedSystem>> sys;
};

template <class K> void move_to(std::map<int, std::unique_ptr<K>> &m, int from, int to)
{
    if (m.count(to)) *m[to] = std::move(*m.at(from));
    else m[to].reset(new K(std::move(*m.at(from))));
    m.erase(from);
}

static std::string step(World &w, const Fields &f)
{
    // call, op, object, to, name or text, numbers
    const std::string &op = f[1], &text = f[4];
    int o = atoi(f[2].c_str()), to = atoi(f[3].c_str());
    std::vector<double> x;
    for (size_t i = 5; i < f.size(); i++) x.push_back(atof(f[i].c_str()));
    std::string out, code = "null";
    try
    {
        if (op == "new_ctx" && text == "empty") w.ctx[to].reset(new ContextHashMap(ContextHashMap::newEmpty()));
        else if (op == "new_ctx") w.ctx[to].reset(new ContextHashMap());
        else if (op == "add_const") w.ctx.at(o)->add_const(text, x[0]);
        else if (op == "new_builder") { std::unique_ptr<SystemBuilder> p(new SystemBuilder(text, *w.ctx.at(o))); w.bld[to] = std::move(p); }
        else if (op == "constrain" || op == "late constrain") code = std::to_string(static_cast<int>(w.bld.at(o)->try_constrain_with(text)));
        else if (op == "is_full" || op == "late is_full") code = std::to_string(static_cast<int>(w.bld.at(o)->is_fully_constrained()));
        else if (op == "debug" || op == "late debug") w.bld.at(o)->show_system_builder();
        else if (op == "build" || op == "late build") { ConstrainedSystem s = w.bld.at(o)->build_system(); w.sys[to].reset(new ConstrainedSystem(std::move(s))); }
        else if (op == "specify" || op == "late specify") code = std::to_string(w.sys.at(o)->specify_variable(text, x[0], x[1], x[2]));
        else if (op == "solve_system" || op == "late solve") out = w.sys.at(o)->solve_system(x[0], 100);
        else if (op == "move_ctx") move_to(w.ctx, o, to);
        else if (op == "move_builder") move_to(w.bld, o, to);
        else if (op == "move_system") move_to(w.sys, o, to);
        else if (op == "free_ctx") w.ctx.erase(o);
        else if (op == "free_builder") w.bld.erase(o);
        else if (op == "free_system") w.sys.erase(o);
        else handles.fail("no such call: " + op);
    }
    catch (const std::runtime_error &e)
    {
        return "{\"throws\":" + quoted(e.what()) + ",\"out\":\"\",\"code\":" + code;
    }
    return "{\"out\":" + quoted(out) + ",\"code\":" + code;
}

int main()
{
    std::string line;
    World w;
    while (std::getline(std::cin, line))
    {
        Fields f = split(line);
        if (f[0] == "end")
        {
            w = World();
            std::cout << "E " << handles.live.size() << std::endl;
            handles.live.clear();
            continue;
        }
        std::string r = step(w, f);
        std::map<std::string, int> n;
        for (auto &h : handles.live) n[h.second]++;
        std::cout << "S " << r << ",\"live\":{";
        bool first = true;
        for (auto &k : n) { std::cout << (first ? "" : ",") << quoted(k.first) << ":" << k.second; first = false; }
        std::cout << "}}" << std::endl;
    }
    return 0;
}
