// Included first in every translation unit of the OS X variant: headers that must see the host platform, then the platform changes
#include <climits>
#include <limits>
#include <atomic>
#include <chrono>
#include <string>
#include <vector>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <iostream>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <boost/config.hpp>
#include <boost/version.hpp>
#include <boost/integer_traits.hpp>
#include <boost/atomic.hpp>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#include <boost/chrono/chrono.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#undef __linux__
#undef __linux
#undef linux
#define macintosh 1
