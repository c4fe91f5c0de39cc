// Reads byte sequences through the image decoders; the bytes lie in a block of exactly their size.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
template <typename P>
static J seen(const ImageBundle<P>& b, double scale)
{
    J px = J::array(), a = J::array();
    for (int y = 0; y < b.image.height(); ++y)
        for (int x = 0; x < b.image.width(); ++x) {
            if constexpr (std::is_same_v<P, float>) px.push_back({b.image(x, y) * scale});
            else px.push_back({b.image(x, y)[0] * scale, b.image(x, y)[1] * scale, b.image(x, y)[2] * scale});
        }
    for (int y = 0; y < b.alpha.height(); ++y)
        for (int x = 0; x < b.alpha.width(); ++x) a.push_back(b.alpha(x, y) * scale);
    return {{"res", "picture"}, {"w", b.image.width()}, {"h", b.image.height()}, {"px", px}, {"a", a}, {"aw", b.alpha.width()}, {"ah", b.alpha.height()},
            {"linear", b.color_space == ColorSpaceHint::Linear}};
}
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    const char* dir = std::getenv("VF_DIR");
    return vf::serve([&](const J& c) -> J {
        if (c["op"] == "reset") return J::object();
        std::size_t n = c["b"].size();
        std::unique_ptr<unsigned char[]> bytes(new unsigned char[n]);
        for (std::size_t i = 0; i < n; ++i) bytes[i] = static_cast<unsigned char>(c["b"][i].get<int>());
        std::string fmt = c["fmt"], via = c["via"];
        bool mono = c["mono"], alpha = c["alpha"];
        const unsigned char* d = bytes.get();
        double k = fmt == "hdr" ? 1 : 255;
        try {
            if (via == "file" || via == "unknown") {
                fs::path p = fs::path(dir) / ("picture." + c["ext"].get<std::string>());
                {
                    std::ofstream f(p, std::ios::binary | std::ios::trunc);
                    f.write(reinterpret_cast<const char*>(d), static_cast<std::streamsize>(n));
                }
                return mono ? seen(read_image_mono(p, alpha), k) : seen(read_image(p, alpha), k);
            }
            if (via == "format") {
                ImageFormat f = fmt == "bmp" ? IMAGE_FORMAT_BMP : fmt == "tga" ? IMAGE_FORMAT_TGA : IMAGE_FORMAT_HDR;
                return mono ? seen(read_image_mono(f, d, n, alpha), k) : seen(read_image(f, d, n, alpha), k);
            }
            if (fmt == "bmp") return mono ? seen(read_image_bmp_mono(d, n, alpha), k) : seen(read_image_bmp(d, n, alpha), k);
            if (fmt == "tga") return mono ? seen(read_image_tga_mono(d, n, alpha), k) : seen(read_image_tga(d, n, alpha), k);
            return mono ? seen(read_image_hdr_mono(d, n), k) : seen(read_image_hdr(d, n), k);
        } catch (const std::bad_alloc&) {
            return {{"res", "memory"}};
        } catch (const std::length_error&) {
            return {{"res", "memory"}};
        } catch (const std::exception&) {
            return {{"res", "reject"}};
        }
    });
}
