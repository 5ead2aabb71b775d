// Stand-in for the used part of Embree: exact ray/triangle tests over all triangles.
#ifndef SHIM_EMBREE4_RTCORE_H_
#define SHIM_EMBREE4_RTCORE_H_
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <limits>
#include <map>
#include <memory>
#include <vector>
struct ShimRtcGeometry
{
  std::vector<unsigned char> vertices, indices;
  std::size_t vertex_stride = 0, index_stride = 0, vertex_count = 0, index_count = 0;
  unsigned int mask = 1;
  bool committed = false;
  int refs = 1;
};
struct ShimRtcScene
{
  std::map<unsigned int, ShimRtcGeometry *> geometries, live;
};
struct ShimRtcDevice
{
};
using RTCDevice = ShimRtcDevice *;
using RTCScene = ShimRtcScene *;
using RTCGeometry = ShimRtcGeometry *;
enum RTCGeometryType { RTC_GEOMETRY_TYPE_TRIANGLE = 0 };
enum RTCBufferType { RTC_BUFFER_TYPE_INDEX = 0, RTC_BUFFER_TYPE_VERTEX = 1 };
enum RTCFormat { RTC_FORMAT_UINT3 = 1, RTC_FORMAT_FLOAT3 = 2 };
#define RTC_INVALID_GEOMETRY_ID (static_cast<unsigned int>(-1))
struct RTCRay
{
  float org_x, org_y, org_z, tnear, dir_x, dir_y, dir_z, time, tfar;
  unsigned int mask, id, flags;
};
struct RTCHit
{
  float Ng_x, Ng_y, Ng_z, u, v;
  unsigned int primID, geomID, instID[1];
};
struct RTCRayHit
{
  RTCRay ray;
  RTCHit hit;
};
inline RTCDevice rtcNewDevice(const char *) { return new ShimRtcDevice; }
inline void rtcReleaseDevice(RTCDevice d) { delete d; }
inline RTCScene rtcNewScene(RTCDevice) { return new ShimRtcScene; }
inline void rtcReleaseGeometry(RTCGeometry g)
{
  if (--g->refs == 0) delete g;
}
inline void rtcReleaseScene(RTCScene s)
{
  for (auto & [id, g] : s->geometries) rtcReleaseGeometry(g);
  delete s;
}
inline RTCGeometry rtcNewGeometry(RTCDevice, RTCGeometryType) { return new ShimRtcGeometry; }
inline void * rtcSetNewGeometryBuffer(RTCGeometry g, RTCBufferType t, unsigned int, RTCFormat, std::size_t stride, std::size_t n)
{
  auto & b = t == RTC_BUFFER_TYPE_VERTEX ? g->vertices : g->indices;
  (t == RTC_BUFFER_TYPE_VERTEX ? g->vertex_stride : g->index_stride) = stride;
  (t == RTC_BUFFER_TYPE_VERTEX ? g->vertex_count : g->index_count) = n;
  b.assign(stride * n + 16, 0);
  return b.data();
}
inline void rtcSetGeometryMask(RTCGeometry g, unsigned int m) { g->mask = m; }
inline void rtcCommitGeometry(RTCGeometry g) { g->committed = true; }
inline unsigned int rtcAttachGeometry(RTCScene s, RTCGeometry g)
{
  unsigned int id = 0;
  while (s->geometries.count(id)) ++id;
  s->geometries[id] = g;
  ++g->refs;
  return id;
}
inline void rtcDetachGeometry(RTCScene s, unsigned int id)
{
  auto it = s->geometries.find(id);
  if (it != s->geometries.end()) {
    rtcReleaseGeometry(it->second);
    s->geometries.erase(it);
  }
}
inline void rtcCommitScene(RTCScene s) { s->live = s->geometries; }
inline void rtcIntersect1(RTCScene s, RTCRayHit * r)
{
  const double o[3] = {r->ray.org_x, r->ray.org_y, r->ray.org_z}, d[3] = {r->ray.dir_x, r->ray.dir_y, r->ray.dir_z};
  double best = r->ray.tfar;
  for (const auto & [id, g] : s->live) {
    if (!g->committed || !(g->mask & r->ray.mask)) continue;
    for (std::size_t k = 0; k < g->index_count; ++k) {
      const auto * t = reinterpret_cast<const std::uint32_t *>(g->indices.data() + k * g->index_stride);
      const float *a = reinterpret_cast<const float *>(g->vertices.data() + t[0] * g->vertex_stride), *b = reinterpret_cast<const float *>(g->vertices.data() + t[1] * g->vertex_stride),
                  *c = reinterpret_cast<const float *>(g->vertices.data() + t[2] * g->vertex_stride);
      double e1[3], e2[3], p[3], q[3], w[3];
      for (int i = 0; i < 3; ++i) e1[i] = double(b[i]) - a[i], e2[i] = double(c[i]) - a[i], w[i] = o[i] - a[i];
      auto cross = [](const double * x, const double * y, double * z) { z[0] = x[1] * y[2] - x[2] * y[1], z[1] = x[2] * y[0] - x[0] * y[2], z[2] = x[0] * y[1] - x[1] * y[0]; };
      auto dot = [](const double * x, const double * y) { return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]; };
      cross(d, e2, p);
      const double det = dot(e1, p);
      if (det == 0) continue;
      const double u = dot(w, p) / det;
      cross(w, e1, q);
      const double v = dot(d, q) / det, dist = dot(e2, q) / det;
      if (u < 0 || v < 0 || u + v > 1 || dist < r->ray.tnear || dist > best) continue;
      best = dist;
      r->ray.tfar = static_cast<float>(dist);
      r->hit.geomID = id;
      r->hit.primID = static_cast<unsigned int>(k);
    }
  }
}
#endif
