// Analysed, never linked: instantiates the header templates for all six voxel types.
#include <cfloat>
#include "DenseField.h"
#include "SparseField.h"
#include "MACField.h"
#include "MACFieldUtil.h"
#include "MIPField.h"
#include "MIPUtil.h"
#include "MIPInterp.h"
#include "EmptyField.h"
#include "ProceduralField.h"
#include "FieldInterp.h"
#include "FieldSampler.h"
#include "FieldWrapper.h"
#include "FieldCache.h"
#include "Resample.h"
#include "MinMaxUtil.h"
#include "Field3DFile.h"
#include "Field3DFileHDF5.h"
#include "SparseFile.h"
#include "SparseDataReader.h"
#include "OgIO.h"
#include "OgSparseDataReader.h"
#include "DenseFieldIO.h"
#include "SparseFieldIO.h"
#include "MACFieldIO.h"
#include "MIPFieldIO.h"
#include "FieldMappingIO.h"
#include "CoordSys.h"
#include "PatternMatch.h"
#include "FileSequence.h"

#include "ns.h"
FIELD3D_NAMESPACE_OPEN
#define ALL6(M) M(half) M(float) M(double) M(V3h) M(V3f) M(V3d)
#define SC3(M) M(half) M(float) M(double)
#define VEC3(M) M(V3h) M(V3f) M(V3d)

#define INST_FIELDS(T)                         \
  template class Field<T>;                     \
  template class WritableField<T>;             \
  template class ResizableField<T>;            \
  template class DenseField<T>;                \
  template class SparseField<T>;               \
  template class EmptyField<T>;                \
  template class MIPField<DenseField<T> >;     \
  template class MIPField<SparseField<T> >;    \
  template class FieldCache<T>;                \
  template class SparseFile::Reference<T>;     \
  template class SparseDataReader<T>;          \
  template class LinearFieldInterp<T>;         \
  template class LinearSparseFieldInterp<T>;   \
  template class CubicFieldInterp<T>;          \
  template class LinearGenericFieldInterp<DenseField<T> >;  \
  template class LinearGenericFieldInterp<SparseField<T> >; \
  template class CubicGenericFieldInterp<DenseField<T> >;   \
  template class CubicGenericFieldInterp<SparseField<T> >;  \
  template class MIPLinearInterp<MIPField<DenseField<T> > >;
ALL6(INST_FIELDS)

#define INST_MAC(T)                    \
  template class MACField<T>;          \
  template class LinearMACFieldInterp<T>; \
  template class CubicMACFieldInterp<T>;
VEC3(INST_MAC)

template class OgOAttribute<int>;
template class OgOAttribute<float>;
#define INST_RS(T) \
  template Field<T>::Vec Field3DInputFileHDF5::readScalarLayers<T>(const std::string&) const; \
  template Field<T>::Vec Field3DInputFileHDF5::readScalarLayers<T>(const std::string&, const std::string&) const; \
  template bool Field3DOutputFileHDF5::writeScalarLayer<T>(const std::string&, const std::string&, Field<T>::Ptr); \
  template bool Field3DOutputFileHDF5::writeScalarLayer<T>(const std::string&, Field<T>::Ptr); \
  template bool Field3DOutputFileHDF5::writeScalarLayer<T>(Field<T>::Ptr); 
SC3(INST_RS)
#define INST_RV(T) \
  template Field<FIELD3D_VEC3_T<T> >::Vec Field3DInputFileHDF5::readVectorLayers<T>(const std::string&) const; \
  template Field<FIELD3D_VEC3_T<T> >::Vec Field3DInputFileHDF5::readVectorLayers<T>(const std::string&, const std::string&) const; \
  template bool Field3DOutputFileHDF5::writeVectorLayer<T>(const std::string&, const std::string&, Field<FIELD3D_VEC3_T<T> >::Ptr); \
  template bool Field3DOutputFileHDF5::writeVectorLayer<T>(const std::string&, Field<FIELD3D_VEC3_T<T> >::Ptr); \
  template bool Field3DOutputFileHDF5::writeVectorLayer<T>(Field<FIELD3D_VEC3_T<T> >::Ptr);
SC3(INST_RV)
#define INST_FS(T) \
  template Field<T>::Vec Field3DInputFile::readScalarLayers<T>(const std::string&) const; \
  template Field<T>::Vec Field3DInputFile::readScalarLayers<T>(const std::string&, const std::string&) const; \
  template bool Field3DOutputFile::writeScalarLayer<T>(const std::string&, const std::string&, Field<T>::Ptr); \
  template bool Field3DOutputFile::writeScalarLayer<T>(const std::string&, Field<T>::Ptr); \
  template bool Field3DOutputFile::writeScalarLayer<T>(Field<T>::Ptr); \
  template bool Field3DOutputFile::writeLayer<T>(const std::string&, Field<T>::Ptr); \
  template bool Field3DOutputFile::writeLayer<T>(Field<T>::Ptr); \
  template Field<FIELD3D_VEC3_T<T> >::Vec Field3DInputFile::readVectorLayers<T>(const std::string&) const; \
  template Field<FIELD3D_VEC3_T<T> >::Vec Field3DInputFile::readVectorLayers<T>(const std::string&, const std::string&) const; \
  template bool Field3DOutputFile::writeVectorLayer<T>(const std::string&, const std::string&, Field<FIELD3D_VEC3_T<T> >::Ptr); \
  template bool Field3DOutputFile::writeVectorLayer<T>(const std::string&, Field<FIELD3D_VEC3_T<T> >::Ptr); \
  template bool Field3DOutputFile::writeVectorLayer<T>(Field<FIELD3D_VEC3_T<T> >::Ptr);
SC3(INST_FS)
template DenseField<float>::Vec Field3DInputFileHDF5::readScalarLayersAs<DenseField, float>(const std::string&) const;
template SparseField<float>::Vec Field3DInputFileHDF5::readScalarLayersAs<SparseField, float>(const std::string&, const std::string&) const;
template DenseField<V3f>::Vec Field3DInputFileHDF5::readVectorLayersAs<DenseField, float>(const std::string&) const;
template SparseField<V3f>::Vec Field3DInputFileHDF5::readVectorLayersAs<SparseField, float>(const std::string&, const std::string&) const;
#define INST_MIP(T) \
  template MIPField<SparseField<T> >::Ptr makeMIP<MIPField<SparseField<T> >, TriangleFilter>(const SparseField<T>&, const int, const V3i&, const size_t); \
  template MIPField<DenseField<T> >::Ptr makeMIP<MIPField<DenseField<T> >, TriangleFilter>(const DenseField<T>&, const int, const V3i&, const size_t);
INST_MIP(float)
INST_MIP(V3f)
template int SparseField<float>::releaseBlocks(Sparse::CheckAllEqual<float>);
template int SparseField<V3f>::releaseBlocks(Sparse::CheckAllEqual<V3f>);
template int SparseField<float>::releaseBlocks(Sparse::CheckMaxAbs<float>);
FIELD3D_NAMESPACE_HEADER_CLOSE
