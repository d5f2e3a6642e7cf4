// Runs histories of calls, one per line, through the C++ classes of the headers ("cpp" on the first line) or the
// plain C functions ("c"). "end" runs the lines read since the last one and answers one line for each, then the
// number of bytes that a further run leaves allocated, then ".".
#include "gmatlib.h"
#include "geqslib.h"
#include "plain.h"
#include <cstdio>
#include <iostream>
#include <memory>
#include <vector>


extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace std;
using ngineer::ConstrainedSystem;
using ngineer::ContextHashMap;
using ngineer::Matrix;
using ngineer::SystemBuilder;

static string unhex(const string &h)
{
    string s;
    for (size_t i = 1; i + 1 < h.size(); i += 2) // after a letter, so that no text is empty
        s += static_cast<char>(stoi(h.substr(i, 2), nullptr, 16));
    return s;
}
static string hex(const string &s)
{
    string h = "x";
    char b[3];
    for (unsigned char c : s)
    {
        snprintf(b, 3, "%02x", c);
        h += b;
    }
    return h;
}
static string number(double v)
{
    char b[40];
    snprintf(b, 40, "%.17g", v);
    return b;
}
static double read_number(istream &in)
{
    string t;
    in >> t;
    return strtod(t.c_str(), nullptr);
}
static unsigned n(istream &in)
{
    unsigned v = 0;
    in >> v;
    return v;
}
static string s(istream &in)
{
    string t;
    in >> t;
    return unhex(t);
}
static string thrown(const exception &e)
{
    return string("throw ") + hex(e.what());
}
template <class T> static void take_out(vector<T> &v, unsigned i)
{
    swap(v[i], v.back());
    v.pop_back();
}
static string text(const char *t)
{
    if (t == nullptr)
        return "null";
    string r = "text " + hex(t);
    _ngffi_::free_solution_string(const_cast<char *>(t));
    return r;
}

struct Cpp
{
    vector<unique_ptr<Matrix>> m;
    vector<unique_ptr<ContextHashMap>> c;
    vector<unique_ptr<SystemBuilder>> b;
    vector<unique_ptr<ConstrainedSystem>> y;

    string line(const string &op, istream &in)
    {
        if (op == "new")
        {
            unsigned r = n(in), k = n(in);
            m.push_back(make_unique<Matrix>(r, k));
        }
        else if (op == "identity")
            m.push_back(unique_ptr<Matrix>(new Matrix(Matrix::Identity(n(in)))));
        else if (op == "copy")
            m.push_back(make_unique<Matrix>(*m[n(in)]));
        else if (op == "assign")
        {
            unsigned i = n(in), j = n(in);
            *m[i] = *m[j];
        }
        else if (op == "drop")
            take_out(m, n(in));
        else if (op == "set")
        {
            unsigned k = n(in), i = n(in), j = n(in);
            if (!m[k]->set({i, j}, read_number(in)))
                return "no";
        }
        else if (op == "dump")
        {
            unsigned k = n(in), r = n(in), c = n(in);
            string t = "values";
            for (unsigned i = 0; i < r; i++)
                for (unsigned j = 0; j < c; j++)
                    t += " " + number((*m[k])[{i, j}]);
            t += " " + number((*m[k])[{r, 0}]) + " " + number((*m[k])[{0, c}]);
            return t;
        }
        else if (op == "show")
        {
            stringstream out;
            out << *m[n(in)];
            return "text " + hex(out.str());
        }
        else if (op == "square")
            return m[n(in)]->is_square() ? "yes" : "no";
        else if (op == "row_scale")
        {
            unsigned k = n(in), r = n(in);
            m[k]->inplace_row_scale(r, read_number(in));
        }
        else if (op == "scale")
        {
            unsigned k = n(in);
            m[k]->inplace_scale(read_number(in));
        }
        else if (op == "row_add")
        {
            unsigned k = n(in), i = n(in), j = n(in);
            m[k]->inplace_row_add(i, j);
        }
        else if (op == "scaled_row_add")
        {
            unsigned k = n(in), i = n(in), j = n(in);
            m[k]->inplace_scaled_row_add(i, j, read_number(in));
        }
        else if (op == "multiply")
        {
            unsigned i = n(in), j = n(in);
            m.push_back(make_unique<Matrix>(*m[i] * *m[j]));
        }
        else if (op == "augment")
        {
            unsigned i = n(in), j = n(in);
            m.push_back(make_unique<Matrix>(*m[i] | *m[j]));
        }
        else if (op == "subset")
        {
            unsigned k = n(in), r1 = n(in), c1 = n(in), r2 = n(in), c2 = n(in);
            m.push_back(make_unique<Matrix>(m[k]->subset(r1, c1, r2, c2)));
        }
        else if (op == "trace")
            return "values " + number(m[n(in)]->trace());
        else if (op == "transpose")
            m.push_back(make_unique<Matrix>(m[n(in)]->transpose()));
        else if (op == "invert")
            m[n(in)]->inplace_invert();

        else if (op == "context")
            c.push_back(n(in) ? make_unique<ContextHashMap>() : make_unique<ContextHashMap>(ContextHashMap::newEmpty()));
        else if (op == "constant")
        {
            unsigned k = n(in);
            string name = s(in);
            c[k]->add_const(name, read_number(in));
        }
        else if (op == "drop_context")
            take_out(c, n(in));
        else if (op == "builder")
        {
            unsigned k = n(in);
            b.push_back(make_unique<SystemBuilder>(s(in), *c[k]));
        }
        else if (op == "offer")
        {
            unsigned k = n(in);
            return "status " + to_string(static_cast<int>(b[k]->try_constrain_with(s(in))));
        }
        else if (op == "full")
            return "status " + to_string(static_cast<int>(b[n(in)]->is_fully_constrained()));
        else if (op == "build")
        {
            auto mine = move(b[n(in)]);
            for (size_t i = 0; i < b.size(); i++)
                if (!b[i])
                {
                    take_out(b, i);
                    break;
                }
            y.push_back(make_unique<ConstrainedSystem>(mine->build_system()));
        }
        else if (op == "drop_builder")
            take_out(b, n(in));
        else if (op == "specify")
        {
            unsigned k = n(in);
            string name = s(in);
            double g = read_number(in), lo = read_number(in), hi = read_number(in);
            return y[k]->specify_variable(name, g, lo, hi) == 1 ? "ok" : "no";
        }
        else if (op == "solve_system")
        {
            unsigned k = n(in);
            double margin = read_number(in);
            string t = text(y[k]->solve_system(margin, n(in)));
            take_out(y, k);
            return t;
        }
        else if (op == "drop_system")
            take_out(y, n(in));
        else
            return "no such call";
        return "ok";
    }
};

struct C
{
    vector<void *> m, c, b, y;

    ~C()
    {
        for (auto p : m) c_free(p);
        for (auto p : c) c_free_context(p);
        for (auto p : b) c_free_builder(p);
        for (auto p : y) c_free_system(p);
    }
    static string kept(vector<void *> &v, void *p)
    {
        if (p == nullptr)
            return "null";
        v.push_back(p);
        return "ok";
    }
    static string done(int r)
    {
        return r ? "ok" : "no";
    }
    static string status(const char *t)
    {
        return string("status ") + t;
    }
    string line(const string &op, istream &in)
    {
        if (op == "new")
        {
            unsigned r = n(in), k = n(in);
            return kept(m, c_new(r, k));
        }
        if (op == "identity")
            return kept(m, c_identity(n(in)));
        if (op == "copy")
            return kept(m, c_clone(m[n(in)]));
        if (op == "assign")
        {
            unsigned i = n(in), j = n(in);
            void *p = c_clone(m[j]);
            c_free(m[i]);
            m[i] = p;
            return "ok";
        }
        if (op == "drop")
        {
            unsigned i = n(in);
            c_free(m[i]);
            take_out(m, i);
            return "ok";
        }
        if (op == "set")
        {
            unsigned k = n(in), i = n(in), j = n(in);
            return done(c_set(m[k], i, j, read_number(in)));
        }
        if (op == "dump")
        {
            unsigned k = n(in), r = n(in), c = n(in);
            string t = "values";
            for (unsigned i = 0; i < r; i++)
                for (unsigned j = 0; j < c; j++)
                    t += " " + number(c_get(m[k], i, j));
            t += " " + number(c_get(m[k], r, 0)) + " " + number(c_get(m[k], 0, c));
            return t;
        }
        if (op == "row_scale")
        {
            unsigned k = n(in), r = n(in);
            return done(c_row_scale(m[k], r, read_number(in)));
        }
        if (op == "scale")
        {
            unsigned k = n(in);
            return done(c_scale(m[k], read_number(in)));
        }
        if (op == "row_add")
        {
            unsigned k = n(in), i = n(in), j = n(in);
            return done(c_row_add(m[k], i, j));
        }
        if (op == "scaled_row_add")
        {
            unsigned k = n(in), i = n(in), j = n(in);
            return done(c_scaled_row_add(m[k], i, j, read_number(in)));
        }
        if (op == "multiply")
        {
            unsigned i = n(in), j = n(in);
            return kept(m, c_multiply(m[i], m[j]));
        }
        if (op == "augment")
        {
            unsigned i = n(in), j = n(in);
            return kept(m, c_augment(m[i], m[j]));
        }
        if (op == "subset")
        {
            unsigned k = n(in), r1 = n(in), c1 = n(in), r2 = n(in), c2 = n(in);
            return kept(m, c_subset(m[k], r1, c1, r2, c2));
        }
        if (op == "trace")
            return "values " + number(c_trace(m[n(in)]));
        if (op == "transpose")
            return kept(m, c_transpose(m[n(in)]));
        if (op == "invert")
            return status(c_invert(m[n(in)]));

        if (op == "context")
            return kept(c, c_context(n(in)));
        if (op == "constant")
        {
            unsigned k = n(in);
            string name = s(in);
            c_constant(c[k], name.c_str(), read_number(in));
            return "ok";
        }
        if (op == "drop_context")
        {
            unsigned i = n(in);
            c_free_context(c[i]);
            take_out(c, i);
            return "ok";
        }
        if (op == "solve")
        {
            unsigned k = n(in);
            string t = s(in);
            double g = read_number(in), lo = read_number(in), hi = read_number(in), margin = read_number(in);
            char *r = c_solve(t.c_str(), c[k], g, lo, hi, margin, n(in));
            return text(r);
        }
        if (op == "builder")
        {
            unsigned k = n(in);
            string t = s(in);
            return kept(b, c_builder(t.c_str(), c[k]));
        }
        if (op == "offer")
        {
            unsigned k = n(in);
            string t = s(in);
            return status(c_offer(b[k], t.c_str()));
        }
        if (op == "full")
            return status(c_full(b[n(in)]));
        if (op == "build")
        {
            unsigned i = n(in);
            void *p = b[i];
            take_out(b, i);
            return kept(y, c_build(p));
        }
        if (op == "drop_builder")
        {
            unsigned i = n(in);
            c_free_builder(b[i]);
            take_out(b, i);
            return "ok";
        }
        if (op == "specify")
        {
            unsigned k = n(in);
            string name = s(in);
            double g = read_number(in), lo = read_number(in), hi = read_number(in);
            return done(c_specify(y[k], name.c_str(), g, lo, hi));
        }
        if (op == "solve_system")
        {
            unsigned k = n(in);
            double margin = read_number(in);
            void *p = y[k];
            take_out(y, k);
            return text(c_solve_system(p, margin, n(in)));
        }
        if (op == "drop_system")
        {
            unsigned i = n(in);
            c_free_system(y[i]);
            take_out(y, i);
            return "ok";
        }
        return "no such call";
    }
};

template <class F> static string run(const vector<string> &lines)
{
    F f;
    string out;
    for (size_t k = 1; k < lines.size(); k++)
    {
        stringstream in(lines[k]);
        string op, answer;
        in >> op;
        try
        {
            answer = f.line(op, in);
        }
        catch (const exception &e)
        {
            answer = thrown(e);
        }
        out += answer + "\n";
    }
    return out;
}
static string run(const vector<string> &lines)
{
    return lines[0] == "c" ? run<C>(lines) : run<Cpp>(lines);
}

int main()
{
    vector<string> lines;
    string l;
    while (getline(cin, l))
    {
        if (l != "end")
        {
            lines.push_back(l);
            continue;
        }
        string out = run(lines);
        // what is set up once is set up by now
        long left = 0;
        for (int k = 0; k < 3; k++)
        {
            long before = __sanitizer_get_current_allocated_bytes();
            run(lines);
            left = static_cast<long>(__sanitizer_get_current_allocated_bytes()) - before;
            if (left == 0)
                break;
        }
        lines.clear();
        cout << out << "left " << left << "\n.\n" << flush;
    }
    return 0;
}
