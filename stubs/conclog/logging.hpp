// Stand-in for the ConcLog submodule (absent in this offline sandbox): logging is discarded.
// Only the interface that Ariadne uses is provided.
#ifndef VERIF_STUB_CONCLOG_LOGGING_HPP
#define VERIF_STUB_CONCLOG_LOGGING_HPP
#include <string>
#include <iostream>
#include <sstream>
#include <memory>
#include <cstdlib>
namespace ConcLog {
struct TerminalTextTheme { int id=0; TerminalTextTheme(int i=0) : id(i) {} };
inline const TerminalTextTheme TT_THEME_NONE(0), TT_THEME_LIGHT(1), TT_THEME_DARK(2);
class LoggerConfiguration {
  public:
    void set_theme(TerminalTextTheme const& t) { _theme=t; }
    void set_verbosity(unsigned int v) { _v=v; }
    unsigned int verbosity() const { return _v; }
    template<class... AS> void set_thread_name_printing_policy(AS...) {}
    template<class... AS> void set_prints_level_on_change_only(AS...) {}
    template<class... AS> void set_prints_scope_entrance(AS...) {}
    template<class... AS> void set_prints_scope_exit(AS...) {}
  private:
    unsigned int _v=0; TerminalTextTheme _theme;
};
class Logger {
  public:
    static Logger& instance() { static Logger l; return l; }
    LoggerConfiguration& configuration() { return _c; }
    void use_immediate_scheduler() {} void use_blocking_scheduler() {} void use_nonblocking_scheduler() {}
    void redirect_to_console() {} void redirect_to_file(const char*) {}
    template<class... AS> void register_thread(AS&&...) {}
    void unregister_thread() {}
    bool is_muted_at(unsigned int) const { return true; }
  private:
    LoggerConfiguration _c;
};
} // namespace ConcLog
#define CONCLOG_SCOPE_CREATE ;
#define CONCLOG_PRINTLN(expr) {}
#define CONCLOG_PRINTLN_AT(level,expr) {}
#define CONCLOG_PRINTLN_VAR(expr) {}
#define CONCLOG_PRINTLN_VAR_AT(level,expr) {}
#define CONCLOG_SCOPE_PRINTHOLD(expr) {}
#define CONCLOG_SCOPE_PRINTHOLD_AT(level,expr) {}
#define CONCLOG_RUN_AT(level,...) __VA_ARGS__
#define CONCLOG_RUN_MUTED(...) __VA_ARGS__
#endif
