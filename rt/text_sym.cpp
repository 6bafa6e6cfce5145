#include "../harness/hse.hpp"
size_t hse_num_at (const std::string& t, size_t p, double* v, int* prec)
{
    if (p >= t.size()) return 0;
    if (t[p] == 1)
    {
        const HseTextNum& n = hse_text_num_at ((unsigned) (t[p + 1] - 'A') * 26u + (unsigned) (t[p + 2] - 'A'));
        *v = n.value; *prec = n.fixed ? n.precision : -n.precision; return 4;
    }
    size_t i = p; bool neg = false;
    if (t[i] == '-' || t[i] == '+') { neg = t[i] == '-'; ++i; }
    const size_t d = i; double x = 0;
    while (i < t.size() && t[i] >= '0' && t[i] <= '9') { x = x * 10 + (t[i] - '0'); ++i; }
    if (i == d) return 0;
    *v = neg ? -x : x; *prec = 0;
    return i - p;
}
std::string hse_cout_text() { return std::cout.text; }
void hse_cout_clear() { std::cout.text.clear(); }
