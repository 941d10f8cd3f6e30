// Parse-only stand-in for OpenOrbitalOptimizer's public interface (the
// real package is not installed): declarations the drivers name, no code.
#pragma once
#include <Eigen/Core>
#include <functional>
#include <iomanip>
#include <iostream>
#include <string>
#include <utility>
#include <vector>
namespace OpenOrbitalOptimizer {
  using IndexVector = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
  template <typename T> using Orbitals = std::vector<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>>;
  template <typename T> using OrbitalOccupations = std::vector<Eigen::Matrix<T, Eigen::Dynamic, 1>>;
  template <typename T> using FockMatrix = std::vector<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>>;
  template <typename T, typename B> using DensityMatrix = std::pair<Orbitals<T>, OrbitalOccupations<B>>;
  template <typename T, typename B> using FockBuilderReturn = std::pair<B, FockMatrix<T>>;
  template <typename T, typename B> using FockBuilder = std::function<FockBuilderReturn<T, B>(const DensityMatrix<T, B> &)>;
  template <typename T, typename B> using BatchedFockBuilder = std::function<std::vector<FockBuilderReturn<T, B>>(const std::vector<DensityMatrix<T, B>> &)>;
  template <typename T, typename B> class SCFSolver {
  public:
    SCFSolver(const IndexVector &, const Eigen::Matrix<B, Eigen::Dynamic, 1> &, const Eigen::Matrix<B, Eigen::Dynamic, 1> &,
              const FockBuilder<T, B> &, const std::vector<std::string> &);
    void set(const std::string &, int); void set(const std::string &, double); void set(const std::string &, const std::string &); void set(const std::string &, const char *);
    void fixed_number_of_particles_per_block(const Eigen::Matrix<B, Eigen::Dynamic, 1> &);
    void initialize_with_fock(const FockMatrix<T> &);
    void initialize_with_orbitals(const Orbitals<T> &, const OrbitalOccupations<B> &);
    void set_batched_fock_builder(const BatchedFockBuilder<T, B> &);
    void print_citation() const;
    void run();
    FockMatrix<T> get_fock_matrix() const;
    FockBuilderReturn<T, B> get_fock_build() const;
    DensityMatrix<T, B> get_solution() const;
    Orbitals<T> get_orbitals() const;
    OrbitalOccupations<B> get_orbital_occupations() const;
    B get_energy() const;
    bool converged() const;
  };
}
