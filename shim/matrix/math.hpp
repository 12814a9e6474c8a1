// Stand-in for the PX4/Matrix header library, which PX4/ecl fetches at build time and which is not
// available offline.  Written for /verif from the public PX4/Matrix API (commit ecl pins: f981cea).
// It is a plain dense fixed-size linear-algebra library; everything is zero-initialised as in PX4/Matrix.
#pragma once
#ifdef assert
#endif
#include <cassert>
#include <cfloat>
#include <cmath>
#include <math.h>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <limits>
#include <type_traits>
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
#ifndef M_TWOPI
#define M_TWOPI (M_PI * 2.0)
#endif
namespace matrix
{
template <typename Type, size_t M> class Vector;
template <typename Type> class Vector2;
template <typename Type> class Vector3;
template <typename Type, size_t M> class SquareMatrix;
template <typename Type, size_t M, size_t N> class Matrix;
template <typename Type, size_t P, size_t Q, size_t M, size_t N> class Slice;
template <typename Type, size_t P, size_t Q, size_t M, size_t N> class ConstSlice;
template <typename Type> class Dcm;
template <typename Type> class Euler;
template <typename Type> class Quaternion;
template <typename Type> class AxisAngle;

template <typename Type> bool is_finite(Type x) { return std::isfinite(x); }
template <typename Type> bool isEqualF(const Type x, const Type y, const Type eps = Type(1e-4f))
{
	return (std::fabs(x - y) <= eps) || (std::isnan(x) && std::isnan(y)) || (std::isinf(x) && std::isinf(y) && std::isnan(x - y));
}
namespace detail
{
template <typename F> F wrap_floating(F x, F low, F high)
{
	if (low <= x && x < high) { return x; }
	const F range = high - low;
	const F inv_range = F(1) / range;
	const F num_wraps = std::floor((x - low) * inv_range);
	return x - range * num_wraps;
}
}
inline float wrap(float x, float low, float high) { return detail::wrap_floating(x, low, high); }
inline double wrap(double x, double low, double high) { return detail::wrap_floating(x, low, high); }
template <typename I> I wrap(I x, I low, I high)
{
	const I range = high - low;
	if (x < low) { x += range * ((low - x) / range + 1); }
	return low + (x - low) % range;
}
template <typename Type> Type wrap_pi(Type x) { return wrap(x, Type(-M_PI), Type(M_PI)); }
template <typename Type> Type wrap_2pi(Type x) { return wrap(x, Type(0), Type(M_TWOPI)); }
template <typename T> int sign(T val) { return (T(FLT_EPSILON) < val) - (val < T(FLT_EPSILON)); }
template <typename T> int signNoZero(T val) { return (T(0) <= val) - (val < T(0)); }
template <typename T> int sign_no_zero(T val) { return signNoZero(val); }

template <typename Type> struct type_identity_ { typedef Type type; };

// ---- read-only slice -------------------------------------------------------------------------
template <typename Type, size_t P, size_t Q, size_t M, size_t N> class ConstSlice
{
public:
	ConstSlice(size_t x0, size_t y0, const Matrix<Type, M, N> *d) : _x0(x0), _y0(y0), _d(d) {}
	const Type &operator()(size_t i, size_t j) const { return (*_d)(_x0 + i, _y0 + j); }
	Type operator()(size_t i) const { return Q == 1 ? (*this)(i, 0) : (*this)(0, i); }
	Matrix<Type, P, Q> m() const { Matrix<Type, P, Q> r; for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { r(i, j) = (*this)(i, j); } return r; }
	Matrix<Type, Q, P> transpose() const { return m().transpose(); }
	template <size_t MM> Vector<Type, (P < Q ? P : Q)> diag_() const;
	Vector<Type, (P < Q ? P : Q)> diag() const;
	Type norm_squared() const { Type a(0); for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { a += (*this)(i, j) * (*this)(i, j); } return a; }
	Type norm() const { return std::sqrt(norm_squared()); }
	Type length() const { return norm(); }
	bool longerThan(Type t) const { return norm_squared() > t * t; }
	Type min() const { return m().min(); }
	Type max() const { return m().max(); }
	Matrix<Type, P, Q> abs() const { return m().abs(); }
	template <typename O> Type dot(const O &o) const { Type a(0); for (size_t i = 0; i < P * Q; i++) { a += (*this)(i) * o(i); } return a; }
	Matrix<Type, P, Q> operator-() const { return -m(); }
protected:
	size_t _x0, _y0;
	const Matrix<Type, M, N> *_d;
};

// ---- writable slice --------------------------------------------------------------------------
template <typename Type, size_t P, size_t Q, size_t M, size_t N> class Slice : public ConstSlice<Type, P, Q, M, N>
{
	typedef ConstSlice<Type, P, Q, M, N> B;
	Matrix<Type, M, N> *_w;
public:
	Slice(size_t x0, size_t y0, Matrix<Type, M, N> *d) : B(x0, y0, d), _w(d) {}
	Slice(const Slice &) = default;
	using B::operator();
	Type &operator()(size_t i, size_t j) { return (*_w)(B::_x0 + i, B::_y0 + j); }
#define VX_EACH for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++)
	Slice &operator=(const Slice &o) { const Matrix<Type, P, Q> t = o.m(); VX_EACH (*this)(i, j) = t(i, j); return *this; }
	template <size_t MM, size_t NN> Slice &operator=(const ConstSlice<Type, P, Q, MM, NN> &o) { const Matrix<Type, P, Q> t = o.m(); VX_EACH (*this)(i, j) = t(i, j); return *this; }
	template <size_t MM, size_t NN> Slice &operator=(const Slice<Type, P, Q, MM, NN> &o) { const Matrix<Type, P, Q> t = o.m(); VX_EACH (*this)(i, j) = t(i, j); return *this; }
	Slice &operator=(const Matrix<Type, P, Q> &o) { VX_EACH (*this)(i, j) = o(i, j); return *this; }
	// row-vector assignment from a column vector
	template <size_t K, typename = typename std::enable_if<P == 1 && K == Q && (Q > 1)>::type>
	Slice &operator=(const Vector<Type, K> &o) { for (size_t j = 0; j < Q; j++) { (*this)(0, j) = o(j); } return *this; }
	Slice &operator=(const Type &o) { VX_EACH (*this)(i, j) = o; return *this; }
	Slice &operator+=(const Matrix<Type, P, Q> &o) { VX_EACH (*this)(i, j) += o(i, j); return *this; }
	Slice &operator-=(const Matrix<Type, P, Q> &o) { VX_EACH (*this)(i, j) -= o(i, j); return *this; }
	template <size_t MM, size_t NN> Slice &operator+=(const ConstSlice<Type, P, Q, MM, NN> &o) { return *this += o.m(); }
	template <size_t MM, size_t NN> Slice &operator-=(const ConstSlice<Type, P, Q, MM, NN> &o) { return *this -= o.m(); }
	Slice &operator+=(const Type &o) { VX_EACH (*this)(i, j) += o; return *this; }
	Slice &operator-=(const Type &o) { VX_EACH (*this)(i, j) -= o; return *this; }
	Slice &operator*=(const Type &o) { VX_EACH (*this)(i, j) *= o; return *this; }
	Slice &operator/=(const Type &o) { VX_EACH (*this)(i, j) /= o; return *this; }
	void setZero() { *this = Type(0); }
	void zero() { *this = Type(0); }
	void setAll(Type v) { *this = v; }
	void setOne() { *this = Type(1); }
#undef VX_EACH
};

template <typename Type, size_t M, size_t N> class Matrix
{
protected:
	Type _data[M][N] {};
public:
	Matrix() = default;
	Matrix(const Matrix &) = default;
	explicit Matrix(const Type data[M * N]) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = data[N * i + j]; } }
	explicit Matrix(const Type data[M][N]) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = data[i][j]; } }
	template <size_t MM, size_t NN> Matrix(const ConstSlice<Type, M, N, MM, NN> &s) { *this = s.m(); }
	template <size_t MM, size_t NN> Matrix(const Slice<Type, M, N, MM, NN> &s) { *this = s.m(); }
	Matrix &operator=(const Matrix &) = default;

	inline const Type &operator()(size_t i, size_t j) const { return _data[i][j]; }
	inline Type &operator()(size_t i, size_t j) { return _data[i][j]; }

	void copyTo(Type dst[M * N]) const { memcpy(dst, _data, sizeof(_data)); }
	void copyToColumnMajor(Type dst[M * N]) const { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { dst[i + j * M] = _data[i][j]; } }
	const Type *data() const { return &_data[0][0]; }
	Type *data() { return &_data[0][0]; }

#define VX_ALL for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++)
	template <size_t P> Matrix<Type, M, P> operator*(const Matrix<Type, N, P> &o) const
	{
		Matrix<Type, M, P> r;
		for (size_t i = 0; i < M; i++) for (size_t k = 0; k < P; k++) { Type a(0); for (size_t j = 0; j < N; j++) { a += _data[i][j] * o(j, k); } r(i, k) = a; }
		return r;
	}
	template <size_t P, size_t MM, size_t NN> Matrix<Type, M, P> operator*(const ConstSlice<Type, N, P, MM, NN> &o) const { return (*this) * o.m(); }
	Matrix emult(const Matrix &o) const { Matrix r; VX_ALL r(i, j) = _data[i][j] * o(i, j); return r; }
	Matrix edivide(const Matrix &o) const { Matrix r; VX_ALL r(i, j) = _data[i][j] / o(i, j); return r; }
	Matrix operator+(const Matrix &o) const { Matrix r; VX_ALL r(i, j) = _data[i][j] + o(i, j); return r; }
	Matrix operator-(const Matrix &o) const { Matrix r; VX_ALL r(i, j) = _data[i][j] - o(i, j); return r; }
	Matrix operator-() const { Matrix r; VX_ALL r(i, j) = -_data[i][j]; return r; }
	void operator+=(const Matrix &o) { VX_ALL _data[i][j] += o(i, j); }
	void operator-=(const Matrix &o) { VX_ALL _data[i][j] -= o(i, j); }
	template <size_t P> void operator*=(const Matrix<Type, N, P> &o) { *this = (*this) * o; }
	Matrix operator*(Type s) const { Matrix r; VX_ALL r(i, j) = _data[i][j] * s; return r; }
	Matrix operator/(Type s) const { return (*this) * (Type(1) / s); }
	Matrix operator+(Type s) const { Matrix r; VX_ALL r(i, j) = _data[i][j] + s; return r; }
	Matrix operator-(Type s) const { return (*this) + (-1 * s); }
	void operator*=(Type s) { VX_ALL _data[i][j] *= s; }
	void operator/=(Type s) { (*this) *= (Type(1) / s); }
	void operator+=(Type s) { VX_ALL _data[i][j] += s; }
	void operator-=(Type s) { (*this) += (-s); }
	bool operator==(const Matrix &o) const { VX_ALL if (!isEqualF(_data[i][j], o(i, j))) { return false; } return true; }
	bool operator!=(const Matrix &o) const { return !(*this == o); }
	void print() const { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { printf("%8.4g ", double(_data[i][j])); } printf("\n"); } }
	Matrix<Type, N, M> transpose() const { Matrix<Type, N, M> r; VX_ALL r(j, i) = _data[i][j]; return r; }
	Matrix<Type, N, M> T() const { return transpose(); }
	template <size_t P, size_t Q> ConstSlice<Type, P, Q, M, N> slice(size_t x0, size_t y0) const { return ConstSlice<Type, P, Q, M, N>(x0, y0, this); }
	template <size_t P, size_t Q> Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) { return Slice<Type, P, Q, M, N>(x0, y0, this); }
	ConstSlice<Type, 1, N, M, N> row(size_t i) const { return slice<1, N>(i, 0); }
	Slice<Type, 1, N, M, N> row(size_t i) { return slice<1, N>(i, 0); }
	ConstSlice<Type, M, 1, M, N> col(size_t j) const { return slice<M, 1>(0, j); }
	Slice<Type, M, 1, M, N> col(size_t j) { return slice<M, 1>(0, j); }
	void setRow(size_t i, const Matrix<Type, N, 1> &r) { for (size_t j = 0; j < N; j++) { _data[i][j] = r(j, 0); } }
	void setRow(size_t i, Type v) { for (size_t j = 0; j < N; j++) { _data[i][j] = v; } }
	void setCol(size_t j, const Matrix<Type, M, 1> &c) { for (size_t i = 0; i < M; i++) { _data[i][j] = c(i, 0); } }
	void setCol(size_t j, Type v) { for (size_t i = 0; i < M; i++) { _data[i][j] = v; } }
	void setZero() { VX_ALL _data[i][j] = Type(0); }
	void zero() { setZero(); }
	void setAll(Type v) { VX_ALL _data[i][j] = v; }
	void setOne() { setAll(Type(1)); }
	void setNaN() { setAll(Type(NAN)); }
	void setIdentity() { VX_ALL _data[i][j] = (i == j) ? Type(1) : Type(0); }
	void identity() { setIdentity(); }
	void swapRows(size_t a, size_t b) { for (size_t j = 0; j < N; j++) { Type t = _data[a][j]; _data[a][j] = _data[b][j]; _data[b][j] = t; } }
	void swapCols(size_t a, size_t b) { for (size_t i = 0; i < M; i++) { Type t = _data[i][a]; _data[i][a] = _data[i][b]; _data[i][b] = t; } }
	Matrix abs() const { Matrix r; VX_ALL r(i, j) = Type(std::fabs(_data[i][j])); return r; }
	Type max() const { Type m = _data[0][0]; VX_ALL if (_data[i][j] > m) { m = _data[i][j]; } return m; }
	Type min() const { Type m = _data[0][0]; VX_ALL if (_data[i][j] < m) { m = _data[i][j]; } return m; }
	bool isAllNan() const { VX_ALL if (!std::isnan(_data[i][j])) { return false; } return true; }
	bool isAllFinite() const { VX_ALL if (!std::isfinite(_data[i][j])) { return false; } return true; }
	void renormalize() { /* only meaningful for Dcm */ }
#undef VX_ALL
};
template <typename Type, size_t M, size_t N> Matrix<Type, M, N> operator*(Type s, const Matrix<Type, M, N> &o) { return o * s; }
template <typename Type, size_t P, size_t Q, size_t M, size_t N> Matrix<Type, P, Q> operator*(Type s, const ConstSlice<Type, P, Q, M, N> &o) { return o.m() * s; }
#define VX_SLOP(op) \
template <typename Type, size_t P, size_t Q, size_t M, size_t N, size_t A, size_t B> Matrix<Type, P, Q> operator op(const ConstSlice<Type, P, Q, M, N> &a, const ConstSlice<Type, P, Q, A, B> &b) { return a.m() op b.m(); } \
template <typename Type, size_t P, size_t Q, size_t M, size_t N> Matrix<Type, P, Q> operator op(const ConstSlice<Type, P, Q, M, N> &a, const Matrix<Type, P, Q> &b) { return a.m() op b; } \
template <typename Type, size_t P, size_t Q, size_t M, size_t N> Matrix<Type, P, Q> operator op(const Matrix<Type, P, Q> &a, const ConstSlice<Type, P, Q, M, N> &b) { return a op b.m(); } \
template <typename Type, size_t P, size_t Q, size_t M, size_t N> Matrix<Type, P, Q> operator op(const ConstSlice<Type, P, Q, M, N> &a, typename type_identity_<Type>::type b) { return a.m() op b; }
VX_SLOP(+)
VX_SLOP(-)
#undef VX_SLOP
template <typename Type, size_t P, size_t Q, size_t M, size_t N> Matrix<Type, P, Q> operator*(const ConstSlice<Type, P, Q, M, N> &a, typename type_identity_<Type>::type b) { return a.m() * b; }
template <typename Type, size_t P, size_t Q, size_t M, size_t N> Matrix<Type, P, Q> operator/(const ConstSlice<Type, P, Q, M, N> &a, typename type_identity_<Type>::type b) { return a.m() / b; }
template <typename Type, size_t P, size_t Q, size_t M, size_t N, size_t R> Matrix<Type, P, R> operator*(const ConstSlice<Type, P, Q, M, N> &a, const Matrix<Type, Q, R> &b) { return a.m() * b; }

template <typename Type, size_t M, size_t N> bool isEqual(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &y, const Type eps = Type(1e-4f))
{
	for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (!isEqualF(x(i, j), y(i, j), eps)) { return false; } }
	return true;
}
inline bool isEqual(float x, float y, float eps = 1e-4f) { return isEqualF(x, y, eps); }
inline bool isEqual(double x, double y, double eps = 1e-4) { return isEqualF(x, y, eps); }
namespace typeFunction
{
template <typename Type> Type min(const Type x, const Type y) { bool xn = std::isnan(x), yn = std::isnan(y); if (xn || yn) { if (xn && !yn) { return y; } if (!xn && yn) { return x; } return Type(NAN); } return (x < y) ? x : y; }
template <typename Type> Type max(const Type x, const Type y) { bool xn = std::isnan(x), yn = std::isnan(y); if (xn || yn) { if (xn && !yn) { return y; } if (!xn && yn) { return x; } return Type(NAN); } return (x > y) ? x : y; }
template <typename Type> Type constrain(const Type x, const Type lo, const Type hi) { if (lo > hi) { return Type(NAN); } else if (std::isnan(x)) { return Type(NAN); } else { return min(hi, max(lo, x)); } }
}
#define VX_MM(fn) \
template <typename Type, size_t M, size_t N> Matrix<Type, M, N> fn(const Matrix<Type, M, N> &x, typename type_identity_<Type>::type s) { Matrix<Type, M, N> m; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::fn(x(i, j), s); } return m; } \
template <typename Type, size_t M, size_t N> Matrix<Type, M, N> fn(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &s) { Matrix<Type, M, N> m; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::fn(x(i, j), s(i, j)); } return m; }
VX_MM(min)
VX_MM(max)
#undef VX_MM
template <typename Type, size_t M, size_t N> Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, typename type_identity_<Type>::type lo, typename type_identity_<Type>::type hi)
{
	Matrix<Type, M, N> m;
	for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::constrain(x(i, j), lo, hi); }
	return m;
}
template <typename Type, size_t M, size_t N> Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &lo, const Matrix<Type, M, N> &hi)
{
	Matrix<Type, M, N> m;
	for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::constrain(x(i, j), lo(i, j), hi(i, j)); }
	return m;
}
template <typename Type, size_t M, size_t N> Matrix<Type, M, N> zeros() { return Matrix<Type, M, N>(); }
template <typename Type, size_t M, size_t N> Matrix<Type, M, N> ones() { Matrix<Type, M, N> m; m.setOne(); return m; }
template <size_t M, size_t N> Matrix<float, M, N> nans() { Matrix<float, M, N> m; m.setNaN(); return m; }

template <typename Type, size_t M> class Vector : public Matrix<Type, M, 1>
{
	typedef Matrix<Type, M, 1> B;
public:
	Vector() = default;
	Vector(const Vector &) = default;
	Vector(const B &o) : B(o) {}
	explicit Vector(const Type d[M]) : B(d) {}
	template <size_t MM, size_t NN> Vector(const ConstSlice<Type, M, 1, MM, NN> &s) : B(s) {}
	template <size_t MM, size_t NN> Vector(const Slice<Type, M, 1, MM, NN> &s) : B(s.m()) {}
	template <size_t MM, size_t NN, size_t K = M, typename = typename std::enable_if<(K > 1)>::type> Vector(const ConstSlice<Type, 1, M, MM, NN> &s) { for (size_t i = 0; i < M; i++) { (*this)(i) = s(0, i); } }
	template <size_t MM, size_t NN, size_t K = M, typename = typename std::enable_if<(K > 1)>::type> Vector(const Slice<Type, 1, M, MM, NN> &s) { for (size_t i = 0; i < M; i++) { (*this)(i) = s(0, i); } }
	Vector &operator=(const Vector &) = default;
	inline const Type &operator()(size_t i) const { return B::_data[i][0]; }
	inline Type &operator()(size_t i) { return B::_data[i][0]; }
	inline const Type &operator()(size_t i, size_t j) const { return B::_data[i][j]; }
	inline Type &operator()(size_t i, size_t j) { return B::_data[i][j]; }
	Type dot(const Matrix<Type, M, 1> &b) const { Type r(0); for (size_t i = 0; i < M; i++) { r += (*this)(i) * b(i, 0); } return r; }
	template <size_t MM, size_t NN> Type dot(const ConstSlice<Type, 1, M, MM, NN> &b) const { Type r(0); for (size_t i = 0; i < M; i++) { r += (*this)(i) * b(0, i); } return r; }
	Type operator*(const Matrix<Type, M, 1> &b) const { return dot(b); }
	Vector operator*(Type b) const { return Vector(B::operator*(b)); }
	template <size_t N> Matrix<Type, M, N> operator*(const Matrix<Type, 1, N> &b) const { return B::operator*(b); }
	Type norm() const { return std::sqrt(norm_squared()); }
	Type norm_squared() const { return dot(*this); }
	Type length() const { return norm(); }
	void normalize() { (*this) /= norm(); }
	Vector unit() const { return (*this) / norm(); }
	Vector unit_or_zero(const Type eps = Type(1e-5f)) const { const Type n = norm(); return n > eps ? Vector((*this) / n) : Vector(); }
	Vector normalized() const { return unit(); }
	bool longerThan(const Type t) const { return norm_squared() > t * t; }
	Vector sqrt() const { Vector r; for (size_t i = 0; i < M; i++) { r(i) = std::sqrt((*this)(i)); } return r; }
	Vector pow(Type p) const { Vector r; for (size_t i = 0; i < M; i++) { r(i) = std::pow((*this)(i), p); } return r; }
	void print() const { B::print(); }
};
template <typename Type, size_t P, size_t Q, size_t M, size_t N> Vector<Type, (P < Q ? P : Q)> ConstSlice<Type, P, Q, M, N>::diag() const { Vector<Type, (P < Q ? P : Q)> r; for (size_t i = 0; i < (P < Q ? P : Q); i++) { r(i) = (*this)(i, i); } return r; }

template <typename Type> class Vector2 : public Vector<Type, 2>
{
public:
	typedef Matrix<Type, 2, 1> M21;
	Vector2() = default;
	Vector2(const Vector2 &) = default;
	Vector2(const M21 &o) : Vector<Type, 2>(o) {}
	explicit Vector2(const Type d[2]) : Vector<Type, 2>(d) {}
	Vector2(Type x, Type y) { (*this)(0) = x; (*this)(1) = y; }
	template <size_t MM, size_t NN> Vector2(const ConstSlice<Type, 2, 1, MM, NN> &s) : Vector<Type, 2>(s) {}
	template <size_t MM, size_t NN> Vector2(const Slice<Type, 2, 1, MM, NN> &s) : Vector<Type, 2>(s) {}
	template <size_t MM, size_t NN> Vector2(const ConstSlice<Type, 1, 2, MM, NN> &s) : Vector<Type, 2>(s) {}
	template <size_t MM, size_t NN> Vector2(const Slice<Type, 1, 2, MM, NN> &s) : Vector<Type, 2>(s) {}
	explicit Vector2(const Matrix<Type, 3, 1> &o) { (*this)(0) = o(0, 0); (*this)(1) = o(1, 0); }
	Vector2 &operator=(const Vector2 &) = default;
	Type cross(const M21 &b) const { return (*this)(0) * b(1, 0) - (*this)(1) * b(0, 0); }
	Type operator%(const M21 &b) const { return cross(b); }
	Vector2 unit() const { return Vector2(Vector<Type, 2>::unit()); }
	Vector2 normalized() const { return unit(); }
	Vector2 unit_or_zero(const Type eps = Type(1e-5f)) const { return Vector2(Vector<Type, 2>::unit_or_zero(eps)); }
};
template <typename Type> class Vector3 : public Vector<Type, 3>
{
public:
	typedef Matrix<Type, 3, 1> M31;
	Vector3() = default;
	Vector3(const Vector3 &) = default;
	Vector3(const M31 &o) : Vector<Type, 3>(o) {}
	explicit Vector3(const Type d[3]) : Vector<Type, 3>(d) {}
	Vector3(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	template <size_t MM, size_t NN> Vector3(const ConstSlice<Type, 3, 1, MM, NN> &s) : Vector<Type, 3>(s) {}
	template <size_t MM, size_t NN> Vector3(const Slice<Type, 3, 1, MM, NN> &s) : Vector<Type, 3>(s) {}
	template <size_t MM, size_t NN> Vector3(const ConstSlice<Type, 1, 3, MM, NN> &s) : Vector<Type, 3>(s) {}
	template <size_t MM, size_t NN> Vector3(const Slice<Type, 1, 3, MM, NN> &s) : Vector<Type, 3>(s) {}
	Vector3 &operator=(const Vector3 &) = default;
	Vector3 cross(const M31 &b) const { const Vector3 &a = *this; return Vector3(a(1) * b(2, 0) - a(2) * b(1, 0), -a(0) * b(2, 0) + a(2) * b(0, 0), a(0) * b(1, 0) - a(1) * b(0, 0)); }
	Vector3 operator+(const M31 &o) const { return Vector3(M31::operator+(o)); }
	Vector3 operator+(Type o) const { return Vector3(M31::operator+(o)); }
	Vector3 operator-(const M31 &o) const { return Vector3(M31::operator-(o)); }
	Vector3 operator-(Type o) const { return Vector3(M31::operator-(o)); }
	Vector3 operator-() const { return Vector3(M31::operator-()); }
	Vector3 operator*(Type s) const { return Vector3(M31::operator*(s)); }
	Type operator*(const M31 &b) const { return Vector<Type, 3>::operator*(b); }
	Vector3 operator%(const M31 &b) const { return cross(b); }
	Vector3 unit() const { return Vector3(Vector<Type, 3>::unit()); }
	Vector3 unit_or_zero(const Type eps = Type(1e-5f)) const { return Vector3(Vector<Type, 3>::unit_or_zero(eps)); }
	Vector3 normalized() const { return unit(); }
	ConstSlice<Type, 2, 1, 3, 1> xy() const { return ConstSlice<Type, 2, 1, 3, 1>(0, 0, this); }
	Slice<Type, 2, 1, 3, 1> xy() { return Slice<Type, 2, 1, 3, 1>(0, 0, this); }
	Dcm<Type> hat() const;
};

template <typename Type, size_t M> class SquareMatrix : public Matrix<Type, M, M>
{
	typedef Matrix<Type, M, M> B;
public:
	SquareMatrix() = default;
	SquareMatrix(const SquareMatrix &) = default;
	explicit SquareMatrix(const Type d[M][M]) : B(d) {}
	explicit SquareMatrix(const Type d[M * M]) : B(d) {}
	SquareMatrix(const B &o) : B(o) {}
	template <size_t MM, size_t NN> SquareMatrix(const ConstSlice<Type, M, M, MM, NN> &s) : B(s) {}
	template <size_t MM, size_t NN> SquareMatrix(const Slice<Type, M, M, MM, NN> &s) : B(s.m()) {}
	SquareMatrix &operator=(const SquareMatrix &) = default;
	bool inv_(SquareMatrix &out) const
	{
		SquareMatrix a = *this; out.setIdentity();
		for (size_t c = 0; c < M; c++) {
			size_t p = c;
			for (size_t r = c + 1; r < M; r++) { if (std::fabs(a(r, c)) > std::fabs(a(p, c))) { p = r; } }
			if (!(std::fabs(a(p, c)) > Type(0))) { return false; }
			if (p != c) { a.swapRows(p, c); out.swapRows(p, c); }
			const Type d = Type(1) / a(c, c);
			for (size_t j = 0; j < M; j++) { a(c, j) *= d; out(c, j) *= d; }
			for (size_t r = 0; r < M; r++) { if (r != c) { const Type f = a(r, c); if (f != Type(0)) { for (size_t j = 0; j < M; j++) { a(r, j) -= f * a(c, j); out(r, j) -= f * out(c, j); } } } }
		}
		return true;
	}
	SquareMatrix I() const { SquareMatrix o; if (!inv_(o)) { o.setZero(); } return o; }
	bool I(SquareMatrix &o) const { return inv_(o); }
	Vector<Type, M> diag() const { Vector<Type, M> r; for (size_t i = 0; i < M; i++) { r(i) = (*this)(i, i); } return r; }
	Type trace() const { Type t(0); for (size_t i = 0; i < M; i++) { t += (*this)(i, i); } return t; }
	template <size_t W> Type trace(size_t first) const { Type t(0); for (size_t i = first; i < first + W; i++) { t += (*this)(i, i); } return t; }
	Vector<Type, M * (M + 1) / 2> upper_right_triangle() const { Vector<Type, M * (M + 1) / 2> r; size_t k = 0; for (size_t x = 0; x < M; x++) for (size_t y = x; y < M; y++) { r(k++) = (*this)(x, y); } return r; }
	void copyLowerToUpperTriangle() { for (size_t r = 0; r < M; r++) for (size_t c = 0; c < r; c++) { (*this)(c, r) = (*this)(r, c); } }
	void copyUpperToLowerTriangle() { for (size_t r = 0; r < M; r++) for (size_t c = 0; c < r; c++) { (*this)(r, c) = (*this)(c, r); } }
	// zero all off-diagonal elements of rows/columns first..first+W-1, keep the diagonal
	template <size_t W> void uncorrelateCovariance(size_t first)
	{
		Vector<Type, W> d; for (size_t i = 0; i < W; i++) { d(i) = (*this)(first + i, first + i); }
		uncorrelateCovarianceSetVariance<W>(first, d);
	}
	template <size_t W> void uncorrelateCovarianceSetVariance(size_t first, const Vector<Type, W> &v)
	{
		for (size_t i = first; i < first + W; i++) for (size_t j = 0; j < M; j++) { (*this)(i, j) = Type(0); (*this)(j, i) = Type(0); }
		for (size_t i = 0; i < W; i++) { (*this)(first + i, first + i) = v(i); }
	}
	template <size_t W> void uncorrelateCovarianceSetVariance(size_t first, Type val) { Vector<Type, W> v; v.setAll(val); uncorrelateCovarianceSetVariance<W>(first, v); }
	// keep the covariances inside the block, zero those with other states
	template <size_t W> void uncorrelateCovarianceBlock(size_t first)
	{
		for (size_t i = first; i < first + W; i++) for (size_t j = 0; j < M; j++) { if (j < first || j >= first + W) { (*this)(i, j) = Type(0); (*this)(j, i) = Type(0); } }
	}
	template <size_t W> void makeBlockSymmetric(size_t first)
	{
		if (W > 1) for (size_t r = first + 1; r < first + W; r++) for (size_t c = first; c < r; c++) { Type t = ((*this)(r, c) + (*this)(c, r)) / Type(2); (*this)(r, c) = t; (*this)(c, r) = t; }
	}
	template <size_t W> void makeRowColSymmetric(size_t first)
	{
		makeBlockSymmetric<W>(first);
		for (size_t r = first; r < first + W; r++) {
			for (size_t c = 0; c < first; c++) { Type t = ((*this)(r, c) + (*this)(c, r)) / Type(2); (*this)(r, c) = t; (*this)(c, r) = t; }
			for (size_t c = first + W; c < M; c++) { Type t = ((*this)(r, c) + (*this)(c, r)) / Type(2); (*this)(r, c) = t; (*this)(c, r) = t; }
		}
	}
	template <size_t W> bool isBlockSymmetric(size_t first, const Type eps = Type(1e-8f)) { for (size_t r = first + 1; r < first + W; r++) for (size_t c = first; c < r; c++) { if (!isEqualF((*this)(r, c), (*this)(c, r), eps)) { return false; } } return true; }
	template <size_t W> bool isRowColSymmetric(size_t first, const Type eps = Type(1e-8f)) { for (size_t r = first; r < first + W; r++) for (size_t c = 0; c < M; c++) { if (!isEqualF((*this)(r, c), (*this)(c, r), eps)) { return false; } } return true; }
};
typedef SquareMatrix<float, 3> SquareMatrix3f;
typedef SquareMatrix<float, 3> Matrix3f;
typedef SquareMatrix<double, 3> SquareMatrix3d;
typedef SquareMatrix<float, 4> Matrix4f;
typedef SquareMatrix<float, 2> Matrix2f;
template <typename Type, size_t M> bool inv(const SquareMatrix<Type, M> &A, SquareMatrix<Type, M> &out, size_t = M) { return A.inv_(out); }
template <typename Type, size_t M> SquareMatrix<Type, M> inv(const SquareMatrix<Type, M> &A) { return A.I(); }
template <typename Type, size_t M> SquareMatrix<Type, M> eye() { SquareMatrix<Type, M> m; m.setIdentity(); return m; }
template <typename Type, size_t M> SquareMatrix<Type, M> diag(Vector<Type, M> d) { SquareMatrix<Type, M> m; for (size_t i = 0; i < M; i++) { m(i, i) = d(i); } return m; }
template <typename Type, size_t M> SquareMatrix<Type, M> choleskyInv(const SquareMatrix<Type, M> &A) { return A.I(); }

template <typename Type> class Dcm : public SquareMatrix<Type, 3>
{
public:
	Dcm() { (*this).setIdentity(); }
	Dcm(const Dcm &) = default;
	explicit Dcm(const Type d[3][3]) : SquareMatrix<Type, 3>(d) {}
	explicit Dcm(const Type d[9]) : SquareMatrix<Type, 3>(d) {}
	Dcm(const Matrix<Type, 3, 3> &o) : SquareMatrix<Type, 3>(o) {}
	Dcm(const Quaternion<Type> &q)
	{
		Dcm &dcm = *this;
		const Type a = q(0), b = q(1), c = q(2), d = q(3);
		const Type aa = a * a, ab = a * b, ac = a * c, ad = a * d, bb = b * b, bc = b * c, bd = b * d, cc = c * c, cd = c * d, dd = d * d;
		dcm(0, 0) = aa + bb - cc - dd; dcm(0, 1) = Type(2) * (bc - ad); dcm(0, 2) = Type(2) * (ac + bd);
		dcm(1, 0) = Type(2) * (bc + ad); dcm(1, 1) = aa - bb + cc - dd; dcm(1, 2) = Type(2) * (cd - ab);
		dcm(2, 0) = Type(2) * (bd - ac); dcm(2, 1) = Type(2) * (ab + cd); dcm(2, 2) = aa - bb - cc + dd;
	}
	Dcm(const Euler<Type> &e)
	{
		Dcm &dcm = *this;
		const Type cp = std::cos(e.phi()), sp = std::sin(e.phi()), ct = std::cos(e.theta()), st = std::sin(e.theta()), cs = std::cos(e.psi()), ss = std::sin(e.psi());
		dcm(0, 0) = ct * cs; dcm(0, 1) = -cp * ss + sp * st * cs; dcm(0, 2) = sp * ss + cp * st * cs;
		dcm(1, 0) = ct * ss; dcm(1, 1) = cp * cs + sp * st * ss; dcm(1, 2) = -sp * cs + cp * st * ss;
		dcm(2, 0) = -st; dcm(2, 1) = sp * ct; dcm(2, 2) = cp * ct;
	}
	Dcm(const AxisAngle<Type> &a) : Dcm(Quaternion<Type>(a)) {}
	Dcm &operator=(const Dcm &) = default;
	Vector<Type, 3> vee() const { Vector<Type, 3> v; v(0) = -(*this)(1, 2); v(1) = (*this)(0, 2); v(2) = -(*this)(0, 1); return v; }
	void renormalize() { for (size_t r = 0; r < 3; r++) { Vector3<Type> v(Matrix<Type, 1, 3>(this->row(r)).transpose()); v.normalize(); for (size_t c = 0; c < 3; c++) { (*this)(r, c) = v(c); } } }
};
template <typename Type> Dcm<Type> Vector3<Type>::hat() const { const Vector3 &v = *this; Dcm<Type> A; A(0, 0) = 0; A(0, 1) = -v(2); A(0, 2) = v(1); A(1, 0) = v(2); A(1, 1) = 0; A(1, 2) = -v(0); A(2, 0) = -v(1); A(2, 1) = v(0); A(2, 2) = 0; return A; }

template <typename Type> class Euler : public Vector<Type, 3>
{
public:
	Euler() = default;
	Euler(const Euler &) = default;
	Euler(const Vector<Type, 3> &o) : Vector<Type, 3>(o) {}
	Euler(const Matrix<Type, 3, 1> &o) : Vector<Type, 3>(o) {}
	Euler(Type phi, Type theta, Type psi) { (*this)(0) = phi; (*this)(1) = theta; (*this)(2) = psi; }
	Euler(const Dcm<Type> &dcm)
	{
		theta() = std::asin(-dcm(2, 0));
		if ((std::fabs(theta() - Type(M_PI / 2))) < Type(1.0e-3)) { phi() = 0; psi() = std::atan2(dcm(1, 2), dcm(0, 2)); }
		else if ((std::fabs(theta() + Type(M_PI / 2))) < Type(1.0e-3)) { phi() = 0; psi() = std::atan2(-dcm(1, 2), -dcm(0, 2)); }
		else { phi() = std::atan2(dcm(2, 1), dcm(2, 2)); psi() = std::atan2(dcm(1, 0), dcm(0, 0)); }
	}
	Euler(const Quaternion<Type> &q) : Euler(Dcm<Type>(q)) {}
	Euler &operator=(const Euler &) = default;
	Type phi() const { return (*this)(0); }
	Type theta() const { return (*this)(1); }
	Type psi() const { return (*this)(2); }
	Type &phi() { return (*this)(0); }
	Type &theta() { return (*this)(1); }
	Type &psi() { return (*this)(2); }
};

template <typename Type> class Quaternion : public Vector<Type, 4>
{
public:
	typedef Matrix<Type, 4, 1> M41;
	typedef Matrix<Type, 3, 1> M31;
	Quaternion() { (*this)(0) = 1; }
	Quaternion(const Quaternion &) = default;
	explicit Quaternion(const Type d[4]) : Vector<Type, 4>(d) {}
	Quaternion(const M41 &o) : Vector<Type, 4>(o) {}
	Quaternion(Type a, Type b, Type c, Type d) { (*this)(0) = a; (*this)(1) = b; (*this)(2) = c; (*this)(3) = d; }
	Quaternion(const Dcm<Type> &R)
	{
		Quaternion &q = *this;
		Type t = R.trace();
		if (t > Type(0)) {
			t = std::sqrt(Type(1) + t); q(0) = Type(0.5) * t; t = Type(0.5) / t;
			q(1) = (R(2, 1) - R(1, 2)) * t; q(2) = (R(0, 2) - R(2, 0)) * t; q(3) = (R(1, 0) - R(0, 1)) * t;
		} else if (R(0, 0) > R(1, 1) && R(0, 0) > R(2, 2)) {
			t = std::sqrt(Type(1) + R(0, 0) - R(1, 1) - R(2, 2)); q(1) = Type(0.5) * t; t = Type(0.5) / t;
			q(0) = (R(2, 1) - R(1, 2)) * t; q(2) = (R(1, 0) + R(0, 1)) * t; q(3) = (R(0, 2) + R(2, 0)) * t;
		} else if (R(1, 1) > R(2, 2)) {
			t = std::sqrt(Type(1) - R(0, 0) + R(1, 1) - R(2, 2)); q(2) = Type(0.5) * t; t = Type(0.5) / t;
			q(0) = (R(0, 2) - R(2, 0)) * t; q(1) = (R(1, 0) + R(0, 1)) * t; q(3) = (R(2, 1) + R(1, 2)) * t;
		} else {
			t = std::sqrt(Type(1) - R(0, 0) - R(1, 1) + R(2, 2)); q(3) = Type(0.5) * t; t = Type(0.5) / t;
			q(0) = (R(1, 0) - R(0, 1)) * t; q(1) = (R(0, 2) + R(2, 0)) * t; q(2) = (R(2, 1) + R(1, 2)) * t;
		}
	}
	Quaternion(const Euler<Type> &e)
	{
		Quaternion &q = *this;
		const Type c1 = std::cos(e.phi() / Type(2)), c2 = std::cos(e.theta() / Type(2)), c3 = std::cos(e.psi() / Type(2));
		const Type s1 = std::sin(e.phi() / Type(2)), s2 = std::sin(e.theta() / Type(2)), s3 = std::sin(e.psi() / Type(2));
		q(0) = c1 * c2 * c3 + s1 * s2 * s3; q(1) = s1 * c2 * c3 - c1 * s2 * s3; q(2) = c1 * s2 * c3 + s1 * c2 * s3; q(3) = c1 * c2 * s3 - s1 * s2 * c3;
	}
	Quaternion(const AxisAngle<Type> &aa)
	{
		Quaternion &q = *this;
		const Type angle = aa.norm();
		if (angle < Type(1e-10)) { q(0) = Type(1); q(1) = q(2) = q(3) = 0; }
		else { const Type m = std::sin(angle / Type(2)); q(0) = std::cos(angle / Type(2)); const Vector<Type, 3> axis = aa.unit(); for (int i = 0; i < 3; i++) { q(i + 1) = axis(i) * m; } }
	}
	Quaternion(const Vector3<Type> &src, const Vector3<Type> &dst, const Type eps = Type(1e-5))
	{
		Quaternion &q = *this; Vector3<Type> cr = src.cross(dst); const Type dt = src.dot(dst);
		if (cr.norm() < eps && dt < 0) {
			cr = src.abs();
			if (cr(0) < cr(1)) { cr = cr(0) < cr(2) ? Vector3<Type>(1, 0, 0) : Vector3<Type>(0, 0, 1); } else { cr = cr(1) < cr(2) ? Vector3<Type>(0, 1, 0) : Vector3<Type>(0, 0, 1); }
			q(0) = Type(0); cr = src.cross(cr);
		} else { q(0) = dt + std::sqrt(src.norm_squared() * dst.norm_squared()); }
		q(1) = cr(0); q(2) = cr(1); q(3) = cr(2); q.normalize();
	}
	Quaternion &operator=(const Quaternion &) = default;
	Quaternion operator*(const Quaternion &p) const
	{
		const Quaternion &q = *this;
		return Quaternion(q(0) * p(0) - q(1) * p(1) - q(2) * p(2) - q(3) * p(3), q(1) * p(0) + q(0) * p(1) - q(3) * p(2) + q(2) * p(3),
				  q(2) * p(0) + q(3) * p(1) + q(0) * p(2) - q(1) * p(3), q(3) * p(0) - q(2) * p(1) + q(1) * p(2) + q(0) * p(3));
	}
	void operator*=(const Quaternion &o) { *this = *this * o; }
	Quaternion operator*(Type s) const { return Quaternion(M41::operator*(s)); }
	void operator*=(Type s) { *this = *this * s; }
	Quaternion inversed() const { const Type n = this->norm_squared(); return Quaternion((*this)(0) / n, -(*this)(1) / n, -(*this)(2) / n, -(*this)(3) / n); }
	void invert() { *this = inversed(); }
	Quaternion canonical() const { for (size_t i = 0; i < 4; i++) { if (std::fabs((*this)(i)) > Type(FLT_EPSILON)) { return (*this) * Type(signNoZero((*this)(i))); } } return *this; }
	void canonicalize() { *this = canonical(); }
	void rotate(const AxisAngle<Type> &v) { Quaternion r(v); *this = r * (*this); }
	Vector3<Type> rotateVector(const Vector3<Type> &v) const { Quaternion p(0, v(0), v(1), v(2)); Quaternion r = (*this) * p * inversed(); return Vector3<Type>(r(1), r(2), r(3)); }
	Vector3<Type> rotateVectorInverse(const Vector3<Type> &v) const { Quaternion p(0, v(0), v(1), v(2)); Quaternion r = inversed() * p * (*this); return Vector3<Type>(r(1), r(2), r(3)); }
	Vector3<Type> conjugate(const Vector3<Type> &v) const { return rotateVector(v); }
	Vector3<Type> conjugate_inversed(const Vector3<Type> &v) const { return rotateVectorInverse(v); }
	Vector3<Type> imag() const { return Vector3<Type>((*this)(1), (*this)(2), (*this)(3)); }
	Vector3<Type> dcm_z() const { const Quaternion &q = *this; return Vector3<Type>(Type(2) * (q(0) * q(2) + q(1) * q(3)), Type(2) * (q(2) * q(3) - q(0) * q(1)), q(0) * q(0) - q(1) * q(1) - q(2) * q(2) + q(3) * q(3)); }
	M41 derivative1(const M31 &w) const { Quaternion v(0, w(0, 0), w(1, 0), w(2, 0)); return (*this) * v * Type(0.5); }
	M41 derivative2(const M31 &w) const { Quaternion v(0, w(0, 0), w(1, 0), w(2, 0)); return v * (*this) * Type(0.5); }
	static Quaternion expq(const Vector3<Type> &u) { const Type n = u.norm(); const Type s = n < Type(1e-6) ? Type(1) : std::sin(n) / n; return Quaternion(std::cos(n), s * u(0), s * u(1), s * u(2)); }
};
template <typename Type> class AxisAngle : public Vector<Type, 3>
{
public:
	AxisAngle() = default;
	AxisAngle(const AxisAngle &) = default;
	explicit AxisAngle(const Type d[3]) : Vector<Type, 3>(d) {}
	AxisAngle(const Matrix<Type, 3, 1> &o) : Vector<Type, 3>(o) {}
	AxisAngle(const Quaternion<Type> &q)
	{
		AxisAngle &v = *this;
		const Vector<Type, 3> im(q.imag());
		const Type mag = im.norm();
		const Type k = std::fabs(mag) >= Type(1e-10) ? Type(2) * std::atan2(mag, q(0)) / mag : Type(2) * Type(signNoZero(q(0)));
		for (int i = 0; i < 3; i++) { v(i) = im(i) * k; }
	}
	AxisAngle(const Dcm<Type> &d) : AxisAngle(Quaternion<Type>(d)) {}
	AxisAngle(const Euler<Type> &e) : AxisAngle(Quaternion<Type>(e)) {}
	AxisAngle(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	AxisAngle(const Matrix<Type, 3, 1> &axis, Type angle) { Vector<Type, 3> a(axis); a = Vector<Type, 3>(a.unit() * angle); for (int i = 0; i < 3; i++) { (*this)(i) = a(i); } }
	AxisAngle &operator=(const AxisAngle &) = default;
	Vector<Type, 3> axis() const { return this->norm() > 0 ? Vector<Type, 3>(this->unit()) : Vector<Type, 3>(Vector3<Type>(1, 0, 0)); }
	Type angle() const { return this->norm(); }
};

// ---- sparse vector ---------------------------------------------------------------------------
template <int N> struct force_constexpr_eval { static const int value = N; };
template <typename Type, size_t M, size_t... Idxs> class SparseVector
{
	static constexpr size_t _n = sizeof...(Idxs);
	static constexpr size_t _idx[sizeof...(Idxs)] = {Idxs...};
	Type _v[sizeof...(Idxs)] {};
	static constexpr int find(size_t i) { for (size_t k = 0; k < _n; k++) { if (_idx[k] == i) { return int(k); } } return -1; }
public:
	SparseVector() = default;
	SparseVector(const Vector<Type, M> &d) { for (size_t k = 0; k < _n; k++) { _v[k] = d(_idx[k]); } }
	explicit SparseVector(const Type d[sizeof...(Idxs)]) { memcpy(_v, d, sizeof(_v)); }
	static constexpr size_t non_zeros() { return _n; }
	static constexpr size_t index(size_t k) { return _idx[k]; }
	template <size_t i> Type at() const { static_assert(find(i) >= 0, "index"); return _v[find(i)]; }
	template <size_t i> Type &at() { static_assert(find(i) >= 0, "index"); return _v[find(i)]; }
	Type atCompressedIndex(size_t k) const { return _v[k]; }
	Type &atCompressedIndex(size_t k) { return _v[k]; }
	void setZero() { for (size_t k = 0; k < _n; k++) { _v[k] = Type(0); } }
	Type dot(const Vector<Type, M> &o) const { Type a(0); for (size_t k = 0; k < _n; k++) { a += _v[k] * o(_idx[k]); } return a; }
	Type norm_squared() const { Type a(0); for (size_t k = 0; k < _n; k++) { a += _v[k] * _v[k]; } return a; }
	Type norm() const { return std::sqrt(norm_squared()); }
	bool longerThan(Type t) const { return norm_squared() > t * t; }
	SparseVector operator*(Type s) const { SparseVector r; for (size_t k = 0; k < _n; k++) { r._v[k] = _v[k] * s; } return r; }
	SparseVector operator/(Type s) const { return *this * (Type(1) / s); }
};
template <typename Type, size_t M, size_t... Idxs> constexpr size_t SparseVector<Type, M, Idxs...>::_idx[sizeof...(Idxs)];
template <typename Type, size_t Q, size_t M, size_t... Idxs> Vector<Type, Q> operator*(const Matrix<Type, Q, M> &m, const SparseVector<Type, M, Idxs...> &v)
{
	Vector<Type, Q> r;
	for (size_t i = 0; i < Q; i++) { Type a(0); for (size_t k = 0; k < v.non_zeros(); k++) { a += m(i, v.index(k)) * v.atCompressedIndex(k); } r(i) = a; }
	return r;
}
template <typename Type, size_t M, size_t... Idxs> Type quadraticForm(const SquareMatrix<Type, M> &A, const SparseVector<Type, M, Idxs...> &x)
{
	Type a(0);
	for (size_t i = 0; i < x.non_zeros(); i++) for (size_t j = 0; j < x.non_zeros(); j++) { a += x.atCompressedIndex(i) * A(x.index(i), x.index(j)) * x.atCompressedIndex(j); }
	return a;
}
template <size_t M, size_t... Idxs> using SparseVectorf = SparseVector<float, M, Idxs...>;

typedef Vector2<float> Vector2f;
typedef Vector2<double> Vector2d;
typedef Vector3<float> Vector3f;
typedef Vector3<double> Vector3d;
typedef Vector<float, 4> Vector4f;
typedef Dcm<float> Dcmf;
typedef Dcm<double> Dcmd;
typedef Euler<float> Eulerf;
typedef Euler<double> Eulerd;
typedef Quaternion<float> Quatf;
typedef Quaternion<double> Quatd;
typedef Quaternion<float> Quaternionf;
typedef AxisAngle<float> AxisAnglef;
typedef AxisAngle<double> AxisAngled;
}
