// Days since 1970-01-01 of a date of the proleptic Gregorian calendar, counted year by year rule; d may be 0 (the day before the first).
#pragma once
#include <cstdint>
static inline int64_t vk_civil(int64_t y, int m, int d) {
  static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; int64_t p = y - 1;   // whole years before y; p >= -1
  int64_t leaps = p < 0 ? -1 : p / 4 - p / 100 + p / 400;   // year 0 is a leap year and not counted by the formula
  return y * 365 + leaps - (1970 * 365 + 477) + cum[m - 1] + (m > 2 && leap ? 1 : 0) + d - 1;
}
