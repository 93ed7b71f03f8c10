// Log messages go to vp_log; a fatal one ends the process, as with glog.
#pragma once
#include <sstream>
#include <string>

void vp_log(int level, const char *format, ...);

#define RAW_LOG_INFO(...) vp_log(0, __VA_ARGS__)
#define RAW_LOG_WARNING(...) vp_log(1, __VA_ARGS__)
#define RAW_LOG_ERROR(...) vp_log(2, __VA_ARGS__)
#define RAW_LOG_FATAL(...) vp_log(3, __VA_ARGS__)
#define RAW_LOG(severity, ...) RAW_LOG_##severity(__VA_ARGS__)
#define RAW_CHECK(cond, msg) ((cond) ? (void)0 : vp_log(3, "%s", msg))
#define RAW_DLOG(severity, ...) RAW_LOG_##severity(__VA_ARGS__)

namespace vp
{
struct LogLine
{
    int level;
    std::ostringstream s;
    explicit LogLine(int l) : level(l)
    {
    }
    ~LogLine()
    {
        vp_log(level, "%s", s.str().c_str());
    }
};
enum
{
    LOG_INFO_ = 0,
    LOG_WARNING_ = 1,
    LOG_ERROR_ = 2,
    LOG_FATAL_ = 3
};
} // namespace vp
#define LOG(severity) vp::LogLine(vp::LOG_##severity##_).s
#define VLOG(n) vp::LogLine(0).s
#define CHECK(cond)                                                                                                    \
    if (!(cond))                                                                                                       \
    vp::LogLine(3).s << #cond
