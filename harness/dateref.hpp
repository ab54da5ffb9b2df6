// Reference for dates: the documented formats (blogc-source(7)) and the calendar, computed by counting days.
#pragma once
#include <string>
#include <cstdio>
#include <cstring>
namespace dr {
struct Date { int f[6] = {0, 1, 1, 0, 0, 0}; int yday = 0, wday = 0; };   // y m d H M S
inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
inline bool parse(const std::string &s, Date &d) {
    static const char *shape[] = {"dddd-dd-dd", "dddd-dd-dd dd", "dddd-dd-dd dd:dd", "dddd-dd-dd dd:dd:dd"};
    int k = -1;
    for (int i = 0; i < 4; i++) if (strlen(shape[i]) == s.size()) k = i;
    if (k < 0) return false;
    for (size_t i = 0; i < s.size(); i++) if (shape[k][i] == 'd' ? !(s[i] >= '0' && s[i] <= '9') : s[i] != shape[k][i]) return false;
    static const int pos[] = {0, 5, 8, 11, 14, 17}, len[] = {4, 2, 2, 2, 2, 2}, lo[] = {1900, 1, 1, 0, 0, 0}, hi[] = {9999, 12, 31, 23, 59, 60};
    for (int i = 0; i < 3 + k; i++) { d.f[i] = std::stoi(s.substr(pos[i], len[i])); if (d.f[i] < lo[i] || d.f[i] > hi[i]) return false; }
    if (d.f[2] > mdays(d.f[0], d.f[1])) return false;
    d.yday = d.f[2] - 1; for (int m = 1; m < d.f[1]; m++) d.yday += mdays(d.f[0], m);
    long days = 1;                                    // 1900-01-01 was a Monday
    for (int y = 1900; y < d.f[0]; y++) days += leap(y) ? 366 : 365;
    d.wday = (int) ((days + d.yday) % 7);
    return true;
}
inline std::string format(const Date &d, const std::string &f) {
    static const char *wd[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
    static const char *mn[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    std::string r; char b[32];
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%' || i + 1 == f.size()) { r += f[i]; continue; }
        b[0] = 0;
        switch (f[++i]) {
            case 'Y': sprintf(b, "%d", d.f[0]); break;
            case 'm': sprintf(b, "%02d", d.f[1]); break; case 'd': sprintf(b, "%02d", d.f[2]); break; case 'H': sprintf(b, "%02d", d.f[3]); break;
            case 'M': sprintf(b, "%02d", d.f[4]); break; case 'S': sprintf(b, "%02d", d.f[5]); break; case 'j': sprintf(b, "%03d", d.yday + 1); break;
            case 'I': sprintf(b, "%02d", d.f[3] % 12 ? d.f[3] % 12 : 12); break; case 'p': strcpy(b, d.f[3] < 12 ? "AM" : "PM"); break;
            case 'w': sprintf(b, "%d", d.wday); break; case 'a': sprintf(b, "%.3s", wd[d.wday]); break; case 'A': strcpy(b, wd[d.wday]); break;
            case 'b': sprintf(b, "%.3s", mn[d.f[1] - 1]); break; case 'B': strcpy(b, mn[d.f[1] - 1]); break; case 'y': sprintf(b, "%02d", d.f[0] % 100); break;
            case '%': strcpy(b, "%"); break;
        }
        r += b;
    }
    return r;
}
}  // namespace dr
