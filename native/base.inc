#include "/repo/dal/time/date.cpp"
#include "/repo/dal/utilities/exceptions.cpp"
#include "/repo/dal/string/strings.cpp"
#include "/repo/dal/string/stringutils.cpp"
#include "/repo/dal/time/datetime.cpp"
