#include "base.inc"
#include "/repo/dal/time/holidaydata.cpp"
#include "/repo/dal/time/holidays.cpp"
#include "/repo/dal/time/dateincrement.cpp"
