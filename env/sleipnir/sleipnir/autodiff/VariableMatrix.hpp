// Stand-in for sleipnir/autodiff/VariableMatrix.hpp (dense, by value, elements
// share their expressions like the real library's).
#pragma once

#include <cassert>
#include <initializer_list>
#include <span>
#include <utility>
#include <vector>

#include "sleipnir/autodiff/Variable.hpp"

namespace sleipnir {

class VariableMatrix;

template <typename Mat>
class VariableBlock {
 public:
  VariableBlock(Mat& mat, int r, int c, int rows, int cols)
      : m_mat{&mat}, m_r{r}, m_c{c}, m_rows{rows}, m_cols{cols} {}
  VariableBlock(const VariableBlock&) = default;
  VariableBlock& operator=(const VariableBlock& o) { return Assign(o); }
  VariableBlock& operator=(const VariableMatrix& o);
  VariableBlock& operator=(double v) {
    for (int i = 0; i < m_rows; ++i)
      for (int j = 0; j < m_cols; ++j) (*this)(i, j) = v;
    return *this;
  }
  void SetValue(double v) {
    for (int i = 0; i < m_rows; ++i)
      for (int j = 0; j < m_cols; ++j) (*this)(i, j).SetValue(v);
  }
  decltype(auto) operator()(int r, int c) const { return (*m_mat)(m_r + r, m_c + c); }
  decltype(auto) operator()(int i) const { return (*this)(i / m_cols, i % m_cols); }
  int Rows() const { return m_rows; }
  int Cols() const { return m_cols; }
  double Value(int r, int c) const { return (*this)(r, c).Value(); }
  double Value(int i) const { return (*this)(i).Value(); }

 private:
  template <typename O>
  VariableBlock& Assign(const O& o) {
    for (int i = 0; i < m_rows; ++i)
      for (int j = 0; j < m_cols; ++j) (*this)(i, j) = o(i, j);
    return *this;
  }
  Mat* m_mat;
  int m_r, m_c, m_rows, m_cols;
};

class VariableMatrix {
 public:
  VariableMatrix() = default;
  explicit VariableMatrix(int rows) : VariableMatrix(rows, 1) {}
  VariableMatrix(int rows, int cols) : m_rows{rows}, m_cols{cols} {
    m_storage.resize(static_cast<size_t>(rows) * cols);
  }
  VariableMatrix(std::initializer_list<std::initializer_list<Variable>> list) {  // NOLINT
    m_rows = static_cast<int>(list.size());
    m_cols = list.size() ? static_cast<int>(list.begin()->size()) : 0;
    for (auto& row : list) {
      assert(static_cast<int>(row.size()) == m_cols);
      m_storage.insert(m_storage.end(), row.begin(), row.end());
    }
  }
  VariableMatrix(const std::vector<std::vector<double>>& list) { Fill(list); }    // NOLINT
  VariableMatrix(const std::vector<std::vector<Variable>>& list) { Fill(list); }  // NOLINT
  VariableMatrix(const Variable& v) : m_rows{1}, m_cols{1} { m_storage.push_back(v); }  // NOLINT
  VariableMatrix(Variable&& v) : m_rows{1}, m_cols{1} { m_storage.push_back(std::move(v)); }  // NOLINT
  template <typename Mat>
  VariableMatrix(const VariableBlock<Mat>& b) : m_rows{b.Rows()}, m_cols{b.Cols()} {  // NOLINT
    for (int i = 0; i < m_rows; ++i)
      for (int j = 0; j < m_cols; ++j) m_storage.push_back(b(i, j));
  }
  explicit VariableMatrix(std::span<const Variable> vals)
      : m_storage(vals.begin(), vals.end()), m_rows{static_cast<int>(vals.size())}, m_cols{1} {}
  VariableMatrix(std::span<const Variable> vals, int rows, int cols)
      : m_storage(vals.begin(), vals.end()), m_rows{rows}, m_cols{cols} {}

  VariableMatrix& operator=(double v) {
    for (auto& e : m_storage) e = v;
    return *this;
  }
  void SetValue(double v) {
    for (auto& e : m_storage) e.SetValue(v);
  }
  Variable& operator()(int r, int c) { return m_storage[static_cast<size_t>(r) * m_cols + c]; }
  const Variable& operator()(int r, int c) const {
    return m_storage[static_cast<size_t>(r) * m_cols + c];
  }
  Variable& operator()(int i) { return m_storage[i]; }
  const Variable& operator()(int i) const { return m_storage[i]; }
  VariableBlock<VariableMatrix> Block(int r, int c, int rows, int cols) {
    return {*this, r, c, rows, cols};
  }
  VariableBlock<const VariableMatrix> Block(int r, int c, int rows, int cols) const {
    return {*this, r, c, rows, cols};
  }
  VariableBlock<VariableMatrix> Segment(int off, int len) { return {*this, off, 0, len, 1}; }
  VariableBlock<const VariableMatrix> Segment(int off, int len) const {
    return {*this, off, 0, len, 1};
  }
  VariableBlock<VariableMatrix> Row(int r) { return {*this, r, 0, 1, m_cols}; }
  VariableBlock<const VariableMatrix> Row(int r) const { return {*this, r, 0, 1, m_cols}; }
  VariableBlock<VariableMatrix> Col(int c) { return {*this, 0, c, m_rows, 1}; }
  VariableBlock<const VariableMatrix> Col(int c) const { return {*this, 0, c, m_rows, 1}; }
  VariableMatrix T() const {
    VariableMatrix out{m_cols, m_rows};
    for (int i = 0; i < m_rows; ++i)
      for (int j = 0; j < m_cols; ++j) out(j, i) = (*this)(i, j);
    return out;
  }
  int Rows() const { return m_rows; }
  int Cols() const { return m_cols; }
  double Value(int r, int c) const { return (*this)(r, c).Value(); }
  double Value(int i) const { return m_storage[i].Value(); }
  operator Variable() const {  // NOLINT
    assert(m_rows == 1 && m_cols == 1);
    return m_storage[0];
  }
  auto begin() { return m_storage.begin(); }
  auto end() { return m_storage.end(); }
  auto begin() const { return m_storage.begin(); }
  auto end() const { return m_storage.end(); }
  size_t size() const { return m_storage.size(); }

  friend VariableMatrix operator*(const VariableMatrix& l, const VariableMatrix& r) {
    assert(l.m_cols == r.m_rows);
    VariableMatrix out{l.m_rows, r.m_cols};
    for (int i = 0; i < l.m_rows; ++i)
      for (int j = 0; j < r.m_cols; ++j) {
        Variable sum;
        for (int k = 0; k < l.m_cols; ++k) sum += l(i, k) * r(k, j);
        out(i, j) = sum;
      }
    return out;
  }
  friend VariableMatrix operator*(const VariableMatrix& l, const Variable& r) {
    return l.Map([&](const Variable& v) { return v * r; });
  }
  friend VariableMatrix operator*(const VariableMatrix& l, double r) {
    return l.Map([&](const Variable& v) { return v * r; });
  }
  friend VariableMatrix operator*(const Variable& l, const VariableMatrix& r) {
    return r.Map([&](const Variable& v) { return l * v; });
  }
  friend VariableMatrix operator*(double l, const VariableMatrix& r) {
    return r.Map([&](const Variable& v) { return l * v; });
  }
  friend VariableMatrix operator/(const VariableMatrix& l, const Variable& r) {
    return l.Map([&](const Variable& v) { return v / r; });
  }
  friend VariableMatrix operator+(const VariableMatrix& l, const VariableMatrix& r) {
    return l.Zip(r, [](const Variable& a, const Variable& b) { return a + b; });
  }
  friend VariableMatrix operator-(const VariableMatrix& l, const VariableMatrix& r) {
    return l.Zip(r, [](const Variable& a, const Variable& b) { return a - b; });
  }
  friend VariableMatrix operator-(const VariableMatrix& l) {
    return l.Map([](const Variable& v) { return -v; });
  }
  VariableMatrix& operator+=(const VariableMatrix& r) { return *this = *this + r; }
  VariableMatrix& operator-=(const VariableMatrix& r) { return *this = *this - r; }
  VariableMatrix& operator*=(const Variable& r) { return *this = *this * r; }
  VariableMatrix& operator/=(const Variable& r) { return *this = *this / r; }

  static VariableMatrix Zero(int rows, int cols) { return VariableMatrix{rows, cols}; }
  static VariableMatrix Ones(int rows, int cols) {
    VariableMatrix m{rows, cols};
    m = 1.0;
    return m;
  }

 private:
  template <typename L>
  void Fill(const L& list) {
    m_rows = static_cast<int>(list.size());
    m_cols = list.size() ? static_cast<int>(list.front().size()) : 0;
    for (auto& row : list)
      for (auto& v : row) m_storage.emplace_back(v);
  }
  template <typename F>
  VariableMatrix Map(F f) const {
    VariableMatrix out{m_rows, m_cols};
    for (size_t i = 0; i < m_storage.size(); ++i) out.m_storage[i] = f(m_storage[i]);
    return out;
  }
  template <typename F>
  VariableMatrix Zip(const VariableMatrix& r, F f) const {
    assert(m_rows == r.m_rows && m_cols == r.m_cols);
    VariableMatrix out{m_rows, m_cols};
    for (size_t i = 0; i < m_storage.size(); ++i) out.m_storage[i] = f(m_storage[i], r.m_storage[i]);
    return out;
  }
  std::vector<Variable> m_storage;
  int m_rows = 0;
  int m_cols = 0;
};

template <typename Mat>
VariableBlock<Mat>& VariableBlock<Mat>::operator=(const VariableMatrix& o) {
  return Assign(o);
}

}  // namespace sleipnir
