// Stand-in for machines-in-motion/yaml_utils (not available offline).
// Only what /repo's sources use: YAML::ReadParameter and Eigen conversions.
#pragma once
#include <stdexcept>
#include <string>
#include <iomanip>
#include <Eigen/Dense>
#include <yaml-cpp/yaml.h>

namespace YAML {
  template <typename T>
  static inline void ReadParameter(const YAML::Node& node, const std::string& name, T& parameter)
  {
    try {
      parameter = node[name.c_str()].template as<T>();
    } catch (...) {
      throw std::runtime_error("Error reading the yaml parameter [" + name + "]");
    }
  }
  template <typename T>
  static inline T ReadParameter(const YAML::Node& node, const std::string& name)
  {
    T parameter;
    YAML::ReadParameter(node, name, parameter);
    return parameter;
  }
}


namespace YAML {
  template <typename Scalar, int R, int C, int O, int MR, int MC>
  struct convert<Eigen::Matrix<Scalar, R, C, O, MR, MC>>
  {
    typedef Eigen::Matrix<Scalar, R, C, O, MR, MC> Mat;
    static Node encode(const Mat& rhs)
    {
      Node node(NodeType::Sequence);
      if (R == 1 || C == 1) {
        for (int i = 0; i < rhs.size(); i++) node.push_back(static_cast<Scalar>(rhs(i)));
      } else {
        for (int r = 0; r < rhs.rows(); r++) {
          Node row(NodeType::Sequence);
          for (int c = 0; c < rhs.cols(); c++) row.push_back(static_cast<Scalar>(rhs(r, c)));
          node.push_back(row);
        }
      }
      return node;
    }
    static bool decode(const Node& node, Mat& rhs)
    {
      if (!node.IsSequence()) return false;
      if (R == 1 || C == 1) {
        const int n = static_cast<int>(node.size());
        if (Mat::SizeAtCompileTime != Eigen::Dynamic && Mat::SizeAtCompileTime != n) return false;
        if (Mat::SizeAtCompileTime == Eigen::Dynamic) rhs.resize(R == 1 ? 1 : n, C == 1 ? 1 : n);
        for (int i = 0; i < n; i++) rhs(i) = node[i].template as<Scalar>();
      } else {
        const int rows = static_cast<int>(node.size());
        const int cols = rows > 0 ? static_cast<int>(node[0].size()) : 0;
        if (R != Eigen::Dynamic && R != rows) return false;
        if (C != Eigen::Dynamic && C != cols) return false;
        rhs.resize(rows, cols);
        for (int r = 0; r < rows; r++) {
          if (static_cast<int>(node[r].size()) != cols) return false;
          for (int c = 0; c < cols; c++) rhs(r, c) = node[r][c].template as<Scalar>();
        }
      }
      return true;
    }
  };
}
