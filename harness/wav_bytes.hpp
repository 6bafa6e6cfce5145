// Builds wav files byte by byte, independently of HART's writer.
#pragma once
#include "hse.hpp"
struct WavBytes
{
    std::vector<unsigned char> b;
    void u8 (unsigned v) { b.push_back ((unsigned char) v); }
    void u16 (unsigned v) { u8 (v & 255); u8 (v >> 8 & 255); }
    void u32 (uint32_t v) { u16 (v & 0xffff); u16 (v >> 16); }
    void tag (const char* t) { for (int i = 0; i < 4; ++i) u8 ((unsigned char) t[i]); }
    WavBytes (unsigned channels, uint32_t rate, unsigned bits, bool isFloat, uint32_t dataBytes)
    {
        tag ("RIFF"); u32 (36 + dataBytes); tag ("WAVE"); tag ("fmt "); u32 (16);
        u16 (isFloat ? 3 : 1); u16 (channels); u32 (rate); u32 (rate * channels * bits / 8); u16 (channels * bits / 8); u16 (bits);
        tag ("data"); u32 (dataBytes);
    }
    void save (const char* name) { hse_file_write (name, (const char*) b.data(), b.size(), 1); }
};
