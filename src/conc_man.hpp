// Coefficient managers, keys and CSV files for the thread checks (the other side is instrumented).
#pragma once
#include <string>
#include <vector>
struct ManApi {
  static ManApi* make();
  virtual ~ManApi() {}
  //! A fixed sequence of edits that depends on `who`; what can be observed is appended to out.
  virtual void work(int who, std::vector<double>& out, std::vector<size_t>* keys) = 0;
  virtual void copyAndWork(int who, std::vector<double>& out) const = 0;
  //! Queries only.
  virtual void queries(int who, std::vector<double>& out) const = 0;
};
size_t nextKey();
void csvWork(const std::string& file, int who, std::vector<double>& out);
