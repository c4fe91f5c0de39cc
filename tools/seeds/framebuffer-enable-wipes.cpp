#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
int main()
{
    CameraModel<RGB> c;
    c.configure_sensor_from_pitch(Resolution{4, 4}, units::Micrometer{8.0});
    auto b = c.make_frame_buffer();
    b.enable_received_power();
    b.received_power()(1, 1) = RGB{5.f};
    b.enable_sensor_response();
    std::cout << b.received_power()(1, 1)[0] << "\n";
    return b.received_power()(1, 1)[0] == 5.f ? 0 : 1;
}
