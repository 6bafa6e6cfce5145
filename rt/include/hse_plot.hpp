// Recording stand-in for the vendored dependencies/signalsmith/plot.h (third-party; SVG rendering is out of scope).
// Used by both the symbolic build and the native replay of the plot property.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <map>

namespace signalsmith { namespace plot {

struct HsePoint { double x, y; };
struct HseTick { double v; bool major; };
class Axis
{
public:
    std::vector<HseTick> ticks; std::string text;
    Axis& major (double v) { ticks.push_back (HseTick { v, true }); return *this; }
    Axis& major (double v, std::string) { return major (v); }
    Axis& minor (double v) { ticks.push_back (HseTick { v, false }); return *this; }
    Axis& minor (double v, std::string) { return minor (v); }
    template <typename... A> Axis& majors (A... a) { int d[] = { 0, (major ((double) a), 0)... }; (void) d; return *this; }
    template <typename... A> Axis& minors (A... a) { int d[] = { 0, (minor ((double) a), 0)... }; (void) d; return *this; }
    Axis& label (std::string s) { text = s; return *this; }
    Axis& linear (double, double) { return *this; }
    Axis& range (double, double) { return *this; }
};
class Line2D
{
public:
    std::vector<HsePoint> points;
    Line2D& add (double x, double y) { points.push_back (HsePoint { x, y }); return *this; }
    template <class X, class Y> Line2D& addArray (const X& x, const Y& y, size_t n) { for (size_t i = 0; i < n; ++i) add (x[i], y[i]); return *this; }
    template <class X, class Y> Line2D& addArray (const X& x, const Y& y) { return addArray (x, y, x.size() < y.size() ? x.size() : y.size()); }
};
class Plot2D
{
public:
    Axis x, y; std::string name; std::vector<std::unique_ptr<Line2D>> lines;
    Line2D& line() { lines.emplace_back (new Line2D()); return *lines.back(); }
    Plot2D& title (std::string s) { name = s; return *this; }
    template <typename T> Plot2D& title (std::string s, T) { name = s; return *this; }
};
class Cell
{
public:
    std::vector<std::unique_ptr<Plot2D>> plots;
    Plot2D& plot (double, double) { plots.emplace_back (new Plot2D()); return *plots.back(); }
    Plot2D& plot() { return plot (0, 0); }
};
struct HsePlotRecord { std::string path; std::vector<std::pair<std::pair<int, int>, Cell*>> cells; };
struct HsePlotLog { static std::vector<HsePlotRecord>& get() { static std::vector<HsePlotRecord> v; return v; } };
class Figure
{
public:
    std::vector<std::pair<std::pair<int, int>, std::shared_ptr<Cell>>> cells;
    Cell& operator() (int c, int r)
    {
        for (auto& x : cells) if (x.first.first == c && x.first.second == r) return *x.second;
        cells.push_back (std::make_pair (std::make_pair (c, r), std::make_shared<Cell>()));
        return *cells.back().second;
    }
    void write (const std::string& path)
    {
        HsePlotRecord r; r.path = path;
        for (auto& x : cells) { keep().push_back (x.second); r.cells.push_back (std::make_pair (x.first, x.second.get())); }
        HsePlotLog::get().push_back (r);
    }
private:
    static std::vector<std::shared_ptr<Cell>>& keep() { static std::vector<std::shared_ptr<Cell>> v; return v; }
};
}}
