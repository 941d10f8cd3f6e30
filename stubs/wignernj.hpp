// Parse-only stand-in for libwignernj (not installed): declarations only.
#pragma once
namespace wignernj { template <typename T> T gaunt(int, int, int, int, int, int); }
