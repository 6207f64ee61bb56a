// Stand-in for the (absent) submodule submodules/utils: utils/stringutils.h
#ifndef UTILS_STRINGUTILS_H
#define UTILS_STRINGUTILS_H

#include <algorithm>
#include <cctype>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>

namespace utils
{

class StringUtils
{
public:
	static bool startsWith(const std::string &str, const std::string &prefix)
	{
		return str.compare(0, prefix.size(), prefix) == 0;
	}

	static bool endsWith(const std::string &str, const std::string &suffix)
	{
		return str.size() >= suffix.size()
			&& str.compare(str.size()-suffix.size(), suffix.size(), suffix) == 0;
	}

	static std::string& toUpper(std::string &str)
	{
		for (std::string::iterator it = str.begin(); it != str.end(); ++it)
			*it = toupper(static_cast<unsigned char>(*it));
		return str;
	}

	static std::string& toLower(std::string &str)
	{
		for (std::string::iterator it = str.begin(); it != str.end(); ++it)
			*it = tolower(static_cast<unsigned char>(*it));
		return str;
	}

	template<typename T>
	static std::string toString(T value)
	{
		std::ostringstream ss;
		ss << value;
		return ss.str();
	}

	template<typename T>
	static T parse(const std::string &str)
	{
		T result;
		std::istringstream(str) >> result;
		return result;
	}

	/** "advanced": strings are returned unchanged */
	template<typename T>
	static T parse(const std::string &str, bool advanced)
	{
		return parse<T>(str);
	}
};

template<> inline std::string StringUtils::parse(const std::string &str) { return str; }
template<> inline const char* StringUtils::parse(const std::string &str) { return str.c_str(); }
template<> inline std::string StringUtils::parse(const std::string &str, bool) { return str; }
template<> inline const char* StringUtils::parse(const std::string &str, bool) { return str.c_str(); }

}

#endif // UTILS_STRINGUTILS_H
