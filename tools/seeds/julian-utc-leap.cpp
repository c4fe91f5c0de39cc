#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    vfspice::st.lsk = true;
    spice::lsk_loaded = true;
    // 2017-01-01T00:00:30 UTC
    double jd = 2457754.5 + 30 / 86400.;
    double et = Time::from_julian_date(jd, TimeScale::UTC).et(), utc = (jd - 2451545.0) * 86400;
    std::cout.precision(12);
    std::cout << et - utc << "\n";
    return std::abs(et - utc - 69.184) < .01 ? 0 : 1;
}
