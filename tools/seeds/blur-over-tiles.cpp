#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    auto shine = [](int w, double x) {
        Scene<RGB> s;
        auto c = s.new_camera_model();
        c.configure_sensor_from_pitch(Resolution(w, 16), units::Micrometer(10), std::nullopt, std::nullopt, std::nullopt);
        c.set_focal_length(units::Millimeter(10));
        c.set_psf<AiryDisk<RGB>>(units::Meter(.01), units::Meter(1e-5), units::Meter(1e-5), units::Meter(.01 / 22), 4, 4);
        c.set_sensor_simulate_noise(false);
        auto eye = s.root.new_instance(c);
        s.set_stars({Star<RGB>(glm::normalize(Vec3<double>{(x - w / 2.) / 1000, 0, 1}), RGB{1e-3f})});
        auto v = std::make_unique<SceneView<RGB>>(s, Interval(Time::from_et(0), Time::from_et(1)), eye, ObservationMode::TRUE_STATE, 1);
        auto fb = c.make_frame_buffer();
        fb.enable_received_power();
        Renderer<RGB> r;
        r.render(*v, fb);
        double sum = 0;
        for (std::size_t i = 0; i < fb.received_power().size(); ++i) sum += fb.received_power()[i][1];
        return sum;
    };
    double a = shine(120, 63.5), b = shine(120, 30.5);
    std::cout << a / b << "\n";
    return b > 0 && std::abs(a / b - 1) < .01 ? 0 : 1;
}
