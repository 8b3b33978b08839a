// C++ matrix objects, driven by lines of calls on standard input.
#include "gmatlib.h"
#include "common.h"
#include <cmath>

Handles handles;
#define M "matrix"
extern "C"
{
    void *__real_new_double_matrix(unsigned, unsigned);
    void *__wrap_new_double_matrix(unsigned r, unsigned c) { return handles.made(__real_new_double_matrix(r, c), M); }
    void *__real_new_double_identity_matrix(unsigned);
    void *__wrap_new_double_identity_matrix(unsigned n) { return handles.made(__real_new_double_identity_matrix(n), M); }
    unsigned __real_inplace_row_swap(void *, unsigned, unsigned);
    unsigned __wrap_inplace_row_swap(void *p, unsigned a, unsigned b) { handles.use(p, M, "inplace_row_swap"); return __real_inplace_row_swap(p, a, b); }
    unsigned __real_inplace_row_scale(void *, unsigned, double);
    unsigned __wrap_inplace_row_scale(void *p, unsigned a, double s) { handles.use(p, M, "inplace_row_scale"); return __real_inplace_row_scale(p, a, s); }
    unsigned __real_inplace_scale(void *, double);
    unsigned __wrap_inplace_scale(void *p, double s) { handles.use(p, M, "inplace_scale"); return __real_inplace_scale(p, s); }
    unsigned __real_inplace_row_add(void *, unsigned, unsigned);
    unsigned __wrap_inplace_row_add(void *p, unsigned a, unsigned b) { handles.use(p, M, "inplace_row_add"); return __real_inplace_row_add(p, a, b); }
    unsigned __real_inplace_scaled_row_add(void *, unsigned, unsigned, double);
    unsigned __wrap_inplace_scaled_row_add(void *p, unsigned a, unsigned b, double s) { handles.use(p, M, "inplace_scaled_row_add"); return __real_inplace_scaled_row_add(p, a, b, s); }
    void *__real_multiply_matrix(void *, void *);
    void *__wrap_multiply_matrix(void *a, void *b) { handles.use(a, M, "multiply_matrix"); handles.use(b, M, "multiply_matrix"); return handles.made(__real_multiply_matrix(a, b), M); }
    void *__real_augment_with(void *, void *);
    void *__wrap_augment_with(void *a, void *b) { handles.use(a, M, "augment_with"); handles.use(b, M, "augment_with"); return handles.made(__real_augment_with(a, b), M); }
    void *__real_subset(void *, unsigned, unsigned, unsigned, unsigned);
    void *__wrap_subset(void *p, unsigned a, unsigned b, unsigned c, unsigned d) { handles.use(p, M, "subset"); return handles.made(__real_subset(p, a, b, c, d), M); }
    double __real_trace(void *);
    double __wrap_trace(void *p) { handles.use(p, M, "trace"); return __real_trace(p); }
    void *__real_transpose(void *);
    void *__wrap_transpose(void *p) { handles.use(p, M, "transpose"); return handles.made(__real_transpose(p), M); }
    unsigned __real_try_inplace_invert(void *);
    unsigned __wrap_try_inplace_invert(void *p) { handles.use(p, M, "try_inplace_invert"); return __real_try_inplace_invert(p); }
    unsigned __real_index_mut_double_matrix(void *, unsigned, unsigned, double);
    unsigned __wrap_index_mut_double_matrix(void *p, unsigned i, unsigned j, double v) { handles.use(p, M, "index_mut_double_matrix"); return __real_index_mut_double_matrix(p, i, j, v); }
    double __real_index_double_matrix(void *, unsigned, unsigned);
    double __wrap_index_double_matrix(void *p, unsigned i, unsigned j) { handles.use(p, M, "index_double_matrix"); return __real_index_double_matrix(p, i, j); }
    void *__real_clone_double_matrix(void *);
    void *__wrap_clone_double_matrix(void *p) { handles.use(p, M, "clone_double_matrix"); return handles.made(__real_clone_double_matrix(p), M); }
    void __real_free_double_matrix(void *);
    void __wrap_free_double_matrix(void *p) { handles.done(p, M, "free_double_matrix"); __real_free_double_matrix(p); }
}

using ngineer::Matrix;
typedef std::map<std::string, std::unique_ptr<Matrix>> Objects;

static Matrix through(Matrix m) { return m; }

// the result of make becomes the object d
template <class F> void put(Objects &objs, const std::string &d, const std::string &how, F make)
{
    auto it = objs.find(d);
    bool there = it != objs.end();
    if (how == "plain")
    {
        if (there) *it->second = make();
        else { std::unique_ptr<Matrix> p(new Matrix(make())); objs[d] = std::move(p); }
    }
    else if (how == "returned")
    {
        if (there) *it->second = through(make());
        else { std::unique_ptr<Matrix> p(new Matrix(through(make()))); objs[d] = std::move(p); }
    }
    else if (how == "stored")
    {
        std::vector<Matrix> v;
        v.push_back(Matrix::Identity(2));
        v.push_back(make());
        v.push_back(Matrix(1, 3));
        v.insert(v.begin(), Matrix(2, 1));
        if (there) *it->second = v[2];
        else { std::unique_ptr<Matrix> p(new Matrix(v[2])); objs[d] = std::move(p); }
    }
    else
    {
        Matrix fresh = make();
        if (!there) { { std::unique_ptr<Matrix> p(new Matrix(1, 2)); objs[d] = std::move(p); } it = objs.find(d); }
        std::swap(*it->second, fresh);
    }
}

static std::string step(Objects &objs, const Fields &f)
{
    const std::string &op = f[1], &how = f[2], &a = f[3], &b = f[4], &d = f[5];
    std::vector<double> x;
    for (size_t i = 6; i < f.size(); i++) x.push_back(atof(f[i].c_str()));
    auto u = [&](size_t i) { return static_cast<unsigned>(x[i]); };
    auto at = [&](const std::string &k) -> Matrix & { return *objs.at(k); };
    auto see = [&](const std::string &k) -> const Matrix & { return *objs.at(k); };
    std::ostringstream out;
    try
    {
        if (op == "new") put(objs, d, how, [&] { return Matrix(u(0), u(1)); });
        else if (op == "identity") put(objs, d, how, [&] { return Matrix::Identity(u(0)); });
        else if (op == "huge") put(objs, d, "plain", [&] { return Matrix(2000000000u, 2000000000u); });
        else if (op == "huge identity") put(objs, d, "plain", [&] { return Matrix::Identity(3000000000u); });
        else if (op == "clone")
        {
            if (how == "plain" && objs.count(d)) at(d) = see(a);
            else if (how == "plain") { std::unique_ptr<Matrix> p(new Matrix(see(a))); objs[d] = std::move(p); }
            else put(objs, d, how, [&] { return Matrix(see(a)); });
        }
        else if (op == "transpose") put(objs, d, how, [&] { return see(a).transpose(); });
        else if (op == "multiply") put(objs, d, how, [&] { return see(a) * see(b); });
        else if (op == "augment") put(objs, d, how, [&] { return see(a) | see(b); });
        else if (op == "subset") put(objs, d, how, [&] { return see(a).subset(u(0), u(1), u(2), u(3)); });
        else if (op == "scale") at(a).inplace_scale(x[0]);
        else if (op == "row_scale") at(a).inplace_row_scale(u(0), x[1]);
        else if (op == "row_add") at(a).inplace_row_add(u(0), u(1));
        else if (op == "scaled_row_add") at(a).inplace_scaled_row_add(u(0), u(1), x[2]);
        else if (op == "set") out << (at(a).set({ u(0), u(1) }, x[2]) ? "yes" : "no");
        else if (op == "get")
        {
            double v = see(a)[{ u(0), u(1) }];
            if (v == -1.7976931348623157e308) out << "lowest";
            else out << v;
        }
        else if (op == "trace") { double v = see(a).trace(); if (std::isnan(v)) out << "nan"; else out << v; }
        else if (op == "fill")
        {
            bool ok = true;
            unsigned c = u(0);
            for (size_t i = 1; i < x.size(); i++)
                ok = at(a).set({ static_cast<unsigned>(i - 1) / c, static_cast<unsigned>(i - 1) % c }, x[i]) && ok;
            out << (ok ? "yes" : "no");
        }
        else if (op == "invert") at(a).inplace_invert();
        else if (op == "drop") objs.erase(a);
        else handles.fail("no such call: " + op);
    }
    catch (const std::runtime_error &e)
    {
        return "{\"throws\":" + quoted(e.what()) + ",\"out\":" + quoted(out.str());
    }
    return "{\"out\":" + quoted(out.str());
}

int main()
{
    std::string line;
    Objects objs;
    while (std::getline(std::cin, line))
    {
        Fields f = split(line);
        if (f[0] == "end")
        {
            objs.clear();
            std::cout << "E " << handles.live.size() << std::endl;
            handles.live.clear();
            continue;
        }
        std::string r = step(objs, f);
        std::cout << "S " << r << ",\"live\":" << handles.live.size() << ",\"shown\":{";
        bool first = true;
        for (auto &o : objs)
        {
            const Matrix &m = *o.second;
            bool elements = m[{ 0, 0 }] != -1.7976931348623157e308;
            std::stringstream text;
            if (elements) text << m;
            std::cout << (first ? "" : ",") << quoted(o.first) << ":{\"text\":" << quoted(text.str()) << ",\"square\":" << (m.is_square() ? "true" : "false") << "}";
            first = false;
        }
        std::cout << "}}" << std::endl;
    }
    return 0;
}
