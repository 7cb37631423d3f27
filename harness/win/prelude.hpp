// Included first in every translation unit of the Windows variant: headers that must see the host platform, then the stand-in
#include <climits>
#include <limits>
#include <atomic>
#include <chrono>
#include <string>
#include <vector>
#include <thread>
#include <condition_variable>
#include <boost/config.hpp>
#include <boost/version.hpp>
#include <boost/integer_traits.hpp>
#include <boost/atomic.hpp>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#include <boost/chrono/chrono.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#define BOOST_WINDOWS
#include "winstub.hpp"
