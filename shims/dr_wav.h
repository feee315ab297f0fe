// Stand-in for dr_libs/dr_wav.h (not available offline): the subset of its API that this
// repository uses, for RIFF/WAVE files with 8/16/24/32 bit integer and 32 bit float PCM.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <vector>

typedef uint64_t drwav_uint64;
typedef uint32_t drwav_uint32;
typedef uint16_t drwav_uint16;
typedef enum { drwav_container_riff, drwav_container_w64 } drwav_container;
#define DR_WAVE_FORMAT_PCM 0x1
#define DR_WAVE_FORMAT_IEEE_FLOAT 0x3

struct drwav_data_format {
  drwav_container container;
  drwav_uint32 format;
  drwav_uint32 channels;
  drwav_uint32 sampleRate;
  drwav_uint32 bitsPerSample;
};
struct drwav {
  drwav_uint32 sampleRate;
  drwav_uint16 channels;
  drwav_uint16 bitsPerSample;
  drwav_uint64 totalPCMFrameCount;
  FILE *file;
  bool writing;
  drwav_uint32 dataBytes;
  drwav_uint16 format;
};

inline drwav_uint32 shim_u32(const unsigned char *p) {
  return p[0] | (p[1] << 8) | (p[2] << 16) | ((drwav_uint32)p[3] << 24);
}
inline int drwav_init_file(drwav *w, const char *name, const void *) {
  memset(w, 0, sizeof *w);
  FILE *f = fopen(name, "rb");
  if (f == nullptr) {
    return 0;
  }
  unsigned char h[12];
  if (fread(h, 1, 12, f) != 12 || memcmp(h, "RIFF", 4) != 0 || memcmp(h + 8, "WAVE", 4) != 0) {
    fclose(f);
    return 0;
  }
  bool haveFmt = false;
  unsigned char c[8];
  while (fread(c, 1, 8, f) == 8) {
    drwav_uint32 len = shim_u32(c + 4);
    if (memcmp(c, "fmt ", 4) == 0 && len >= 16) {
      unsigned char b[16];
      if (fread(b, 1, 16, f) != 16) {
        break;
      }
      w->format = (drwav_uint16)(b[0] | (b[1] << 8));
      w->channels = (drwav_uint16)(b[2] | (b[3] << 8));
      w->sampleRate = shim_u32(b + 4);
      w->bitsPerSample = (drwav_uint16)(b[14] | (b[15] << 8));
      haveFmt = w->channels > 0 && (w->bitsPerSample == 8 || w->bitsPerSample == 16 ||
                                    w->bitsPerSample == 24 || w->bitsPerSample == 32);
      fseek(f, (long)(len - 16 + (len & 1)), SEEK_CUR);
    } else if (memcmp(c, "data", 4) == 0 && haveFmt) {
      w->dataBytes = len;
      w->totalPCMFrameCount = len / ((drwav_uint32)w->channels * (w->bitsPerSample / 8u));
      w->file = f;
      return 1;
    } else {
      fseek(f, (long)(len + (len & 1)), SEEK_CUR);
    }
  }
  fclose(f);
  return 0;
}
inline drwav_uint64 drwav_read_pcm_frames_f32(drwav *w, drwav_uint64 frames, float *out) {
  drwav_uint64 n = 0;
  unsigned bytes = w->bitsPerSample / 8u;
  for (; n < frames; n++) {
    for (unsigned ch = 0; ch < w->channels; ch++) {
      unsigned char b[4] = {0, 0, 0, 0};
      if (fread(b, 1, bytes, w->file) != bytes) {
        return n;
      }
      float v = 0;
      if (w->format == DR_WAVE_FORMAT_IEEE_FLOAT) {
        memcpy(&v, b, 4);
      } else if (bytes == 1) {
        v = ((float)b[0] - 128.0f) / 128.0f;
      } else if (bytes == 2) {
        v = (float)(int16_t)(b[0] | (b[1] << 8)) / 32768.0f;
      } else if (bytes == 3) {
        v = (float)((int32_t)((drwav_uint32)b[0] << 8 | (drwav_uint32)b[1] << 16 |
                              (drwav_uint32)b[2] << 24) >>
                    8) /
            8388608.0f;
      } else {
        v = (float)((double)(int32_t)shim_u32(b) / 2147483648.0);
      }
      out[n * w->channels + ch] = v;
    }
  }
  return n;
}
inline void shim_header(drwav *w) {
  unsigned char h[44];
  auto p32 = [&](int o, drwav_uint32 v) {
    for (int i = 0; i < 4; i++) {
      h[o + i] = (unsigned char)(v >> (8 * i));
    }
  };
  auto p16 = [&](int o, drwav_uint32 v) {
    h[o] = (unsigned char)v;
    h[o + 1] = (unsigned char)(v >> 8);
  };
  memcpy(h, "RIFF", 4);
  p32(4, 36 + w->dataBytes);
  memcpy(h + 8, "WAVEfmt ", 8);
  p32(16, 16);
  p16(20, w->format);
  p16(22, w->channels);
  p32(24, w->sampleRate);
  unsigned align = w->channels * (w->bitsPerSample / 8u);
  p32(28, w->sampleRate * align);
  p16(32, align);
  p16(34, w->bitsPerSample);
  memcpy(h + 36, "data", 4);
  p32(40, w->dataBytes);
  fseek(w->file, 0, SEEK_SET);
  fwrite(h, 1, 44, w->file);
}
inline int drwav_init_file_write(drwav *w, const char *name, const drwav_data_format *fmt,
                                 const void *) {
  memset(w, 0, sizeof *w);
  w->file = fopen(name, "wb");
  if (w->file == nullptr) {
    return 0;
  }
  w->writing = true;
  w->format = (drwav_uint16)fmt->format;
  w->channels = (drwav_uint16)fmt->channels;
  w->sampleRate = fmt->sampleRate;
  w->bitsPerSample = (drwav_uint16)fmt->bitsPerSample;
  shim_header(w);
  return 1;
}
inline drwav_uint64 drwav_write_pcm_frames(drwav *w, drwav_uint64 frames, const void *data) {
  if (w->file == nullptr) {
    return 0;
  }
  size_t bytes = (size_t)frames * w->channels * (w->bitsPerSample / 8u);
  fwrite(data, 1, bytes, w->file);
  w->dataBytes += (drwav_uint32)bytes;
  w->totalPCMFrameCount += frames;
  return frames;
}
inline int drwav_uninit(drwav *w) {
  if (w->file != nullptr) {
    if (w->writing) {
      shim_header(w);
    }
    fclose(w->file);
    w->file = nullptr;
  }
  return 0;
}
