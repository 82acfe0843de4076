// Stand-in for spdlog: loggers and sinks with levels that record the messages they get, after spdlog 1.12
// (logger: level info and no sinks at first; sink: level trace; a message passes if its level is at least the
// logger's, and reaches every sink whose level it is at least). Formatting of arguments is not modelled.
#pragma once
#include <atomic>
#include <exception>
#include <initializer_list>
#include <memory>
#include <string>
#include <vector>
namespace spdlog {
namespace level { enum level_enum : int { trace = 0, debug = 1, info = 2, warn = 3, err = 4, critical = 5, off = 6, n_levels }; }
namespace sinks {
struct Msg { std::string logger, text; level::level_enum lev; };
class sink {
 public:
  std::vector<Msg> got; std::string pattern = "default"; int flushes = 0;
  virtual ~sink() {}
  virtual const char* kind() const = 0;
  void set_level(level::level_enum l) { level_ = l; } level::level_enum level() const { return level_; } bool should_log(level::level_enum l) const { return l >= level_; }
  void set_pattern(const std::string& p) { pattern = p; } void flush() { flushes++; }
 protected: level::level_enum level_ = level::trace;
};
struct stdout_color_sink_mt : sink { const char* kind() const override { return "console"; } }; typedef stdout_color_sink_mt stdout_color_sink_st, stdout_sink_mt;
struct null_sink_mt : sink { const char* kind() const override { return "null"; } }; typedef null_sink_mt null_sink_st;
struct basic_file_sink_mt : sink { std::string file; bool trunc; explicit basic_file_sink_mt(const std::string& f, bool t = false) : file(f), trunc(t) {} const char* kind() const override { return "basic"; } std::string filename() const { return file; } };
struct rotating_file_sink_mt : sink { std::string file; std::size_t max_size, max_files; rotating_file_sink_mt(const std::string& f, std::size_t s, std::size_t n, bool = false) : file(f), max_size(s), max_files(n) {} const char* kind() const override { return "rotating"; } std::string filename() const { return file; } };
}
typedef std::shared_ptr<sinks::sink> sink_ptr; typedef std::initializer_list<sink_ptr> sinks_init_list;
class logger {
 public:
  explicit logger(std::string n) : name_(n) {}
  template <class It> logger(std::string n, It b, It e) : name_(n), sinks_(b, e) {}
  logger(std::string n, sink_ptr s) : name_(n), sinks_{s} {} logger(std::string n, sinks_init_list l) : name_(n), sinks_(l) {}
  virtual ~logger() {}
  const std::string& name() const { return name_; } void set_level(level::level_enum l) { level_ = l; } level::level_enum level() const { return level_; } bool should_log(level::level_enum l) const { return l >= level_; }
  const std::vector<sink_ptr>& sinks() const { return sinks_; } std::vector<sink_ptr>& sinks() { return sinks_; }
  void set_pattern(std::string p) { for (auto& s : sinks_) s->set_pattern(p); }
  void flush() { for (auto& s : sinks_) s->flush(); } void flush_on(level::level_enum l) { flush_ = l; } level::level_enum flush_level() const { return flush_; }
  void log(level::level_enum l, const std::string& m) { if (!should_log(l)) return; for (auto& s : sinks_) if (s->should_log(l)) s->got.push_back({name_, m, l}); if (l >= flush_ && l != level::off) flush(); }
  void trace(const std::string& m) { log(level::trace, m); } void debug(const std::string& m) { log(level::debug, m); } void info(const std::string& m) { log(level::info, m); } void warn(const std::string& m) { log(level::warn, m); } void error(const std::string& m) { log(level::err, m); } void critical(const std::string& m) { log(level::critical, m); }
 protected: std::string name_; std::vector<sink_ptr> sinks_; level::level_enum level_ = level::info, flush_ = level::off;
};
}
