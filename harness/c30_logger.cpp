//@ build src=src/core/ekat_comm.cpp def=EKAT_ENABLE_MPI,EKAT_MPI_ERRORS_ARE_FATAL inc=shim/mpi,shim/spdlog,src/logging
//@ case entry=lg_levels
//@ case entry=lg_ranks p.P=3
//@ case entry=lg_ranks p.P=1
//@ case entry=lg_ranks p.P=4 tier=thorough
//@ case entry=lg_shared p.P=2
//@ case entry=lg_shared p.P=1
//@ case entry=lg_files
//@ bounds every combination of logger, console and file level and message level; every file and rank policy (and pair of rank policies for shared sinks); 1 to 3 (thorough 4) ranks; log names of one symbolic letter, suffix given or default
//@ outside raising the level of a logger on a rank that its policy silenced at construction (spdlog's set_level is open to the user); formatting, rotation and flushing (spdlog)
//@ stubs spdlog (a stand-in with the level rules of spdlog 1.12 whose sinks record what they get); MPI (the model of C27)
#include "ekat_logger.hpp"
#include <stdexcept>
using namespace vx; using namespace ekat::logger; using ekat::Comm; using std::string;
typedef spdlog::sinks::basic_file_sink_mt Basic; typedef spdlog::sinks::rotating_file_sink_mt Rot;
static LogLevel lev(const char* n) { return (LogLevel)pick<int>(0, 6, n); }
static LogLevel slev(const char* n) { return (LogLevel)range<int>(0, 6, n); }
static bool got1(const spdlog::sink_ptr& s, const string& lg, const string& m, int l) { return s->got.size() == 1 && s->got[0].logger == lg && s->got[0].text == m && s->got[0].lev == l; }
VX_ENTRY(lg_levels) { mpim::reset(1); Comm c(MPI_COMM_WORLD); auto l0 = slev("level"), l1 = slev("new level"), cl = slev("console level"), fl = slev("file level"); auto ml = (LogLevel)range<int>(0, 5, "message level"); int set = pick<int>(0, 7, "which are set"); Logger<LogBasicFile, LogRootRank> lg("x", l0, c);
  check(lg.log_level() == l0 && lg.console_level() == l0 && lg.file_level() == l0, "initial levels"); if (set & 1) lg.set_log_level(l1); if (set & 2) lg.set_console_level(cl); if (set & 4) lg.set_file_level(fl); auto L = set & 1 ? l1 : l0, C = set & 2 ? cl : l0, F = set & 4 ? fl : l0; check(lg.log_level() == L && lg.console_level() == C && lg.file_level() == F, "levels are independent"); check(lg.get_console_sink()->level() == C && lg.get_file_sink()->level() == F && lg.level() == L, "levels of the sinks");
  lg.log(ml, "hello"); bool con = ml >= L && ml >= C, fil = ml >= L && ml >= F; check(con ? got1(lg.get_console_sink(), "x", "hello", ml) : lg.get_console_sink()->got.empty(), "console"); check(fil ? got1(lg.get_file_sink(), "x", "hello", ml) : lg.get_file_sink()->got.empty(), "file"); cover(con ? "console" : "no console"); cover(fil ? "file" : "no file");
  check(lg.get_console_sink()->pattern == "default", "pattern"); lg.set_no_format(); check(lg.get_console_sink()->pattern == "%v" && lg.get_file_sink()->pattern == "%v", "no format"); lg.set_format("[%l] %v"); check(lg.get_console_sink()->pattern == "[%l] %v" && lg.get_file_sink()->pattern == "[%l] %v", "format"); }
template <class F> static const char* kindOf() { return std::is_same<F, LogNoFile>::value ? "null" : std::is_same<F, LogBasicFile>::value ? "basic" : "rotating"; }
static string fileOf(const spdlog::sink_ptr& s) { if (auto b = std::dynamic_pointer_cast<Basic>(s)) return b->file; if (auto r = std::dynamic_pointer_cast<Rot>(s)) return r->file; return ""; }
static char g_name; static int g_lev, g_msg, g_suf, g_file, g_pol, g_pol2, g_lev2; static bool g_files;
// what a logger of this file and rank policy must be like on this rank
template <class F, class R> static void one(const Comm& c) {
  string nm(1, g_name); bool all = std::is_same<R, LogAllRanks>::value, act = all || c.rank() == 0, nofile = std::is_same<F, LogNoFile>::value; string suf = g_suf ? ".txt" : ".log"; Logger<F, R> lg = g_suf ? Logger<F, R>(nm, (LogLevel)g_lev, c, suf) : Logger<F, R>(nm, (LogLevel)g_lev, c); string file = nofile ? "" : nm + (all ? "." + std::to_string(c.size()) + "." + std::to_string(c.rank()) : "") + suf;
  check(lg.name() == nm, "name"); check(lg.get_logfile_name() == file, "name of the log file"); check(!strcmp(lg.get_console_sink()->kind(), "console"), "console sink"); check(!strcmp(lg.get_file_sink()->kind(), act ? kindOf<F>() : "null"), "a rank writes a file exactly if its policy says so"); check(fileOf(lg.get_file_sink()) == (act ? file : ""), "file written to"); check(lg.sinks().size() == 2 && lg.sinks()[0] != lg.sinks()[1] && (lg.sinks()[0] == lg.get_console_sink() || lg.sinks()[1] == lg.get_console_sink()) && (lg.sinks()[0] == lg.get_file_sink() || lg.sinks()[1] == lg.get_file_sink()), "sinks of the logger");
  if (act) check(lg.log_level() == g_lev && lg.console_level() == g_lev && lg.file_level() == g_lev, "levels"); else { check(lg.log_level() == LogLevel::off, "level of a silent rank"); check(lg.file_level() == LogLevel::off, "a silent rank's file sink is off"); }
  lg.log((LogLevel)g_msg, "m"); bool out = act && g_msg >= g_lev; check(out ? got1(lg.get_console_sink(), nm, "m", g_msg) : lg.get_console_sink()->got.empty(), "console output on this rank"); check(out ? got1(lg.get_file_sink(), nm, "m", g_msg) : lg.get_file_sink()->got.empty(), "file output on this rank"); }
static void rank_(void*) { Comm c(MPI_COMM_WORLD); switch (g_file * 2 + g_pol) { case 0: return one<LogNoFile, LogRootRank>(c); case 1: return one<LogNoFile, LogAllRanks>(c); case 2: return one<LogBasicFile, LogRootRank>(c); case 3: return one<LogBasicFile, LogAllRanks>(c); case 4: return one<LogBigFiles, LogRootRank>(c); default: return one<LogBigFiles, LogAllRanks>(c); } }
static void all(void (*f)(void*), int P) { if (P == 1) f((void*)0); else { for (long r = 0; r < P; r++) __vx_spawn(f, (void*)r, 0); __vx_join_all(); } }
VX_ENTRY(lg_ranks) { int P = param("P"); mpim::reset(P); g_name = sym<char>("name"); assume(g_name >= 'a' && g_name <= 'z'); g_lev = range<int>(0, 6, "level"); g_msg = range<int>(0, 5, "message level"); g_suf = pick<int>(0, 1, "suffix"); g_file = pick<int>(0, 2, "file policy"); g_pol = pick<int>(0, 1, "rank policy"); all(rank_, P); cover("ranks"); }
template <class R, class R2> static void shared_(const Comm& c) { bool a1 = std::is_same<R, LogAllRanks>::value || c.rank() == 0, a2 = std::is_same<R2, LogAllRanks>::value || c.rank() == 0; Logger<LogBasicFile, R> s("src", (LogLevel)g_lev, c); auto cl = s.console_level(), fl = s.file_level(); Logger<LogBasicFile, R2> t("new", (LogLevel)g_lev2, c, s);
  check(t.name() == "new" && s.name() == "src", "names"); check(t.get_console_sink() == s.get_console_sink() && t.get_file_sink() == s.get_file_sink() && t.sinks().size() == 2 && s.sinks().size() == 2, "the sinks are shared"); check(t.get_logfile_name() == s.get_logfile_name(), "name of the shared file"); check(s.console_level() == cl && s.file_level() == fl && s.log_level() == (a1 ? g_lev : 6), "sharing changes no level of the source"); check(t.log_level() == (a2 ? g_lev2 : 6), "level of the new logger");
  t.log((LogLevel)g_msg, "m"); bool o = a2 && g_msg >= g_lev2; bool con = o && g_msg >= cl, fil = o && g_msg >= fl; check(con ? got1(s.get_console_sink(), "new", "m", g_msg) : s.get_console_sink()->got.empty(), "console output through shared sinks"); check(fil ? got1(s.get_file_sink(), "new", "m", g_msg) : s.get_file_sink()->got.empty(), "file output through shared sinks"); size_t nc = s.get_console_sink()->got.size(); s.log((LogLevel)g_msg, "n"); check((s.get_console_sink()->got.size() > nc) == (a1 && g_msg >= g_lev), "the source still logs by its own level"); }
static void srank(void*) { Comm c(MPI_COMM_WORLD); switch (g_pol * 2 + g_pol2) { case 0: return shared_<LogRootRank, LogRootRank>(c); case 1: return shared_<LogRootRank, LogAllRanks>(c); case 2: return shared_<LogAllRanks, LogRootRank>(c); default: return shared_<LogAllRanks, LogAllRanks>(c); } }
VX_ENTRY(lg_shared) { int P = param("P"); mpim::reset(P); g_lev = range<int>(0, 6, "level"); g_lev2 = range<int>(0, 6, "second level"); g_msg = range<int>(0, 5, "message level"); g_pol = pick<int>(0, 1, "rank policy"); g_pol2 = pick<int>(0, 1, "second rank policy"); all(srank, P); cover("shared"); }
VX_ENTRY(lg_files) { char n = sym<char>("name"); assume(n >= 33 && n < 127); string f = string("d/") + n + ".log"; auto b = std::dynamic_pointer_cast<Basic>(LogBasicFile::get_file_sink(f)); check(b && b->file == f && b->trunc, "basic file: one fresh file of that name"); auto r = std::dynamic_pointer_cast<Rot>(LogBigFiles::get_file_sink(f)); check(r && r->file == f && r->max_size == (size_t)LogBigFiles::mb_per_file * 1024 * 1024 && r->max_files == (size_t)LogBigFiles::num_files, "big files: size and number of the files"); check(LogNoFile::get_file_sink(f)->kind() == string("null"), "no file"); auto b2 = LogBasicFile::get_file_sink(f); check(b2 != std::shared_ptr<spdlog::sinks::sink>(b), "each logger has its own sink"); cover("files"); }
