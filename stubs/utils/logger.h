// Stand-in for the (absent) submodule submodules/utils: utils/logger.h
#ifndef UTILS_LOGGER_H
#define UTILS_LOGGER_H

#include <cassert>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <sstream>
#include <stdint.h>
#include <string>

#define NDBG_UNUSED(x) ((void) x)

/** Told about warnings if the program defines it */
extern "C" void verif_log(int level) __attribute__((weak));

namespace utils
{

/** Hooks the harness may define; the defaults are silent */
class Logger
{
public:
	enum Level { DEBUG, INFO, WARNING, ERROR };

private:
	Level m_level;
	bool m_active;
	std::ostringstream* m_out;

	void operator=(const Logger&);
public:
	Logger(Level level, int rank)
		: m_level(level), m_active(rank == 0), m_out(0L)
	{
		if (level == ERROR)
			m_out = new std::ostringstream;
		if (level == WARNING && &verif_log != 0L)
			verif_log(level);
	}

	Logger(const Logger &o)
		: m_level(o.m_level), m_active(o.m_active), m_out(o.m_out)
	{
		const_cast<Logger&>(o).m_out = 0L;
		const_cast<Logger&>(o).m_level = DEBUG;
	}

	~Logger()
	{
		if (m_level == ERROR) {
			if (m_out)
				std::cerr << "ASAGI logError: " << m_out->str() << std::endl;
			delete m_out;
			abort();
		}
		delete m_out;
	}

	template<typename T>
	Logger& operator<<(const T &v)
	{
		if (m_out)
			*m_out << v << ' ';
		return *this;
	}

	Logger& operator<<(std::ostream& (*)(std::ostream&))
	{
		return *this;
	}
};

}

inline utils::Logger logDebug(int rank = 0) { return utils::Logger(utils::Logger::DEBUG, rank); }
inline utils::Logger logInfo(int rank = 0) { return utils::Logger(utils::Logger::INFO, rank); }
inline utils::Logger logWarning(int rank = 0) { return utils::Logger(utils::Logger::WARNING, rank); }
inline utils::Logger logError() { return utils::Logger(utils::Logger::ERROR, 0); }

#endif // UTILS_LOGGER_H
