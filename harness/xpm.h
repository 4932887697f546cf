// Reading xpm images.
#pragma once
#include "bbgen.h"

namespace bb {

struct Image { size_t w = 0, h = 0, colors = 0, cpp = 0; std::vector<std::string> strings; };

/// the strings of the C array in an xpm file; comments are skipped, everything else must be the array syntax
inline Image parse(std::string const& text)
{
    Image im;
    REQUIRE(text.compare(0, 9, "/* XPM */") == 0, "the file does not start with /* XPM */");
    std::string rest;           // text without strings and comments
    bool comma_wanted = false;
    for (size_t i = 0; i < text.size(); ++i) {
        if (text.compare(i, 2, "/*") == 0) { size_t e = text.find("*/", i); REQUIRE(e != std::string::npos, "comment does not end"); i = e + 1; continue; }
        if (text[i] == '"') {
            REQUIRE(!comma_wanted, "no comma after string number " << im.strings.size());
            std::string s;
            for (++i; ; ++i) {
                REQUIRE(i < text.size() && text[i] != '\n', "string number " << im.strings.size() << " does not end");
                if (text[i] == '"') break;
                s += text[i];
            }
            im.strings.push_back(s); comma_wanted = true; rest += 'S';
            continue;
        }
        if (text[i] == ',') { REQUIRE(comma_wanted, "comma without string"); comma_wanted = false; continue; }
        if (!isspace(static_cast<unsigned char>(text[i]))) rest += text[i];
    }
    std::string frame;
    for (char ch : rest) if (ch != 'S') frame += ch;
    REQUIRE(frame == "staticchar*matrix_xpm[]={};", "unexpected text around the strings: " << frame);
    REQUIRE(!im.strings.empty(), "no strings");
    std::istringstream is(im.strings[0]);
    REQUIRE(static_cast<bool>(is >> im.w >> im.h >> im.colors >> im.cpp), "header is " << im.strings[0]);
    return im;
}

} // namespace bb
