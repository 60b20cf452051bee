// The few declarations of Embree the sources name; nothing here casts rays.
#pragma once
#include <cstddef>
typedef struct RTCDeviceTy * RTCDevice;
typedef struct RTCSceneTy * RTCScene;
typedef struct RTCGeometryTy * RTCGeometry;
enum RTCGeometryType { RTC_GEOMETRY_TYPE_TRIANGLE = 0 };
enum RTCBufferType { RTC_BUFFER_TYPE_INDEX = 0, RTC_BUFFER_TYPE_VERTEX = 1 };
enum RTCFormat { RTC_FORMAT_UINT3 = 0x5003, RTC_FORMAT_FLOAT3 = 0x9003 };
inline RTCGeometry rtcNewGeometry(RTCDevice, RTCGeometryType) { return nullptr; }
inline void * rtcSetNewGeometryBuffer(RTCGeometry, RTCBufferType, unsigned, RTCFormat, std::size_t, std::size_t) { return nullptr; }
inline void rtcSetGeometryMask(RTCGeometry, unsigned) {}
inline void rtcCommitGeometry(RTCGeometry) {}
inline unsigned rtcAttachGeometry(RTCScene, RTCGeometry) { return 0; }
inline void rtcReleaseGeometry(RTCGeometry) {}
