// stand-in for the Catch session: records what it is given
#pragma once
#include <string>
#include <vector>
namespace Catch { struct Session { inline static std::vector<std::string> args; inline static bool terminated; inline static int applied, ran, result, parse_result; inline static void (*on_run)();
  int applyCommandLine(int n, char** v) { applied++; for (int i = 0; i < n; i++) args.push_back(v[i]); terminated = v[n] == nullptr; return parse_result; } int run() { ran++; if (on_run) on_run(); return result; } }; }
