// Verification stand-in for riptide's logging front end: log calls have no effect. Logging is outside every property.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <format>
#include <fstream>
#include <future>
#include <iostream>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_map>
#include <vector>
using namespace std::literals;
namespace riptide::logging
{
    enum class loglevel : int32_t
    {
        notset = 0,
        debug = 10,
        info = 20,
        warn = 30,
        error = 40,
        critical = 50,
        none = 60
    };
    struct logger
    {
        template <typename... A>
        void log(A &&...)
        {
        }
        template <typename... A>
        void debug(A &&...)
        {
        }
        template <typename... A>
        void info(A &&...)
        {
        }
        template <typename... A>
        void warn(A &&...)
        {
        }
        template <typename... A>
        void error(A &&...)
        {
        }
        template <typename... A>
        void critical(A &&...)
        {
        }
        bool should_log(loglevel)
        {
            return false;
        }
        void set_level(loglevel) {}
    };
    inline logger the_logger;
    inline logger * get_logger(const char * = "")
    {
        return &the_logger;
    }
}
