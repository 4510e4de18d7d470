// Stand-in for the ifopt interface (not installed here): the same classes and
// virtual functions, with a small projected-gradient optimiser behind
// IpoptSolver.  The checks inspect the problem handed to the solver and choose
// the outcome it reports.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace ifopt {
static constexpr double inf = 1.0e20;
struct Bounds {
  Bounds(double lower = 0.0, double upper = 0.0) : lower_(lower), upper_(upper) {}
  double lower_, upper_;
};
static const Bounds NoBound(-inf, +inf);
static const Bounds BoundZero(0.0, 0.0);
static const Bounds BoundGreaterZero(0.0, +inf);
static const Bounds BoundSmallerZero(-inf, 0.0);

class Component {
 public:
  using Ptr = std::shared_ptr<Component>;
  using Jacobian = Eigen::SparseMatrix<double, Eigen::RowMajor>;
  using VectorXd = Eigen::VectorXd;
  using VecBound = std::vector<Bounds>;
  static constexpr int kSpecifyLater = -1;
  Component(int num_rows, const std::string &name) : num_rows_(num_rows), name_(name) {}
  virtual ~Component() = default;
  virtual VectorXd GetValues() const = 0;
  virtual VecBound GetBounds() const = 0;
  virtual void SetVariables(const VectorXd &x) = 0;
  virtual Jacobian GetJacobian() const = 0;
  int GetRows() const { return num_rows_; }
  std::string GetName() const { return name_; }
  void SetRows(int n) { num_rows_ = n; }

 private:
  int num_rows_;
  std::string name_;
};

class Composite : public Component {
 public:
  using Ptr = std::shared_ptr<Composite>;
  explicit Composite(const std::string &name, bool cost = false) : Component(0, name), cost_(cost) {}
  void AddComponent(const Component::Ptr &c) {
    comp_.push_back(c);
    SetRows(cost_ ? 1 : GetRows() + c->GetRows());
  }
  const Component::Ptr GetComponent(std::string name) const {
    for (auto &c : comp_)
      if (c->GetName() == name) return c;
    throw std::runtime_error("component " + name + " does not exist");
  }
  const std::vector<Component::Ptr> GetComponents() const { return comp_; }
  VectorXd GetValues() const override {
    VectorXd v = VectorXd::Zero(GetRows());
    int r = 0;
    for (auto &c : comp_) {
      v.segment(r, c->GetRows()) += c->GetValues();
      if (!cost_) r += c->GetRows();
    }
    return v;
  }
  VecBound GetBounds() const override {
    VecBound b;
    for (auto &c : comp_) {
      VecBound x = c->GetBounds();
      b.insert(b.end(), x.begin(), x.end());
    }
    return b;
  }
  void SetVariables(const VectorXd &x) override {
    int r = 0;
    for (auto &c : comp_) {
      c->SetVariables(x.segment(r, c->GetRows()));
      r += c->GetRows();
    }
  }
  Jacobian GetJacobian() const override {
    if (comp_.empty()) return Jacobian();
    Eigen::MatrixXd d = Eigen::MatrixXd::Zero(GetRows(), comp_[0]->GetJacobian().cols());
    int r = 0;
    for (auto &c : comp_) {
      Jacobian j = c->GetJacobian();
      d.middleRows(r, j.rows()) += Eigen::MatrixXd(j);
      if (!cost_) r += c->GetRows();
    }
    return d.sparseView(0.0, 0.0);
  }

 private:
  bool cost_;
  std::vector<Component::Ptr> comp_;
};

class VariableSet : public Component {
 public:
  VariableSet(int n_var, const std::string &name) : Component(n_var, name) {}
  ~VariableSet() override = default;
  Jacobian GetJacobian() const final { throw std::runtime_error("not implemented for variables"); }
};

class ConstraintSet : public Component {
 public:
  using VariablesPtr = Composite::Ptr;
  ConstraintSet(int n_constraints, const std::string &name) : Component(n_constraints, name) {}
  ~ConstraintSet() override = default;
  void LinkWithVariables(const VariablesPtr &x) { variables_ = x; }
  Jacobian GetJacobian() const final {
    Eigen::MatrixXd d = Eigen::MatrixXd::Zero(GetRows(), variables_->GetRows());
    int col = 0;
    for (auto &v : variables_->GetComponents()) {
      Jacobian j(GetRows(), v->GetRows());
      FillJacobianBlock(v->GetName(), j);
      if (j.rows() != GetRows() || j.cols() != v->GetRows()) throw std::runtime_error("size of the Jacobian block");
      d.middleCols(col, v->GetRows()) = Eigen::MatrixXd(j);
      col += v->GetRows();
    }
    return d.sparseView(0.0, 0.0);
  }
  virtual void FillJacobianBlock(std::string var_set, Jacobian &jac_block) const = 0;
  void SetVariables(const VectorXd &) final { throw std::runtime_error("constraints have no variables"); }

 protected:
  const VariablesPtr GetVariables() const { return variables_; }

 private:
  VariablesPtr variables_;
};

class CostTerm : public ConstraintSet {
 public:
  explicit CostTerm(const std::string &name) : ConstraintSet(1, name) {}
  ~CostTerm() override = default;
  virtual double GetCost() const = 0;
  VectorXd GetValues() const final {
    VectorXd v(1);
    v(0) = GetCost();
    return v;
  }
  VecBound GetBounds() const final { return VecBound(1, NoBound); }
};

class Problem {
 public:
  Problem() : variables_(std::make_shared<Composite>("variable-sets")), constraints_("constraint-sets"), costs_("cost-terms", true) {}
  virtual ~Problem() = default;
  void AddVariableSet(std::shared_ptr<VariableSet> v) { variables_->AddComponent(v); }
  void AddConstraintSet(std::shared_ptr<ConstraintSet> c) {
    c->LinkWithVariables(variables_);
    constraints_.AddComponent(c);
  }
  void AddCostSet(std::shared_ptr<CostTerm> c) {
    c->LinkWithVariables(variables_);
    costs_.AddComponent(c);
  }
  Composite::Ptr GetOptVariables() const { return variables_; }
  const Composite &GetConstraints() const { return constraints_; }
  const Composite &GetCosts() const { return costs_; }
  int GetNumberOfOptimizationVariables() const { return variables_->GetRows(); }
  int GetNumberOfConstraints() const { return constraints_.GetRows(); }
  bool HasCostTerms() const { return costs_.GetRows() > 0; }
  double EvaluateCostFunction(const double *x) {
    variables_->SetVariables(Eigen::Map<const Eigen::VectorXd>(x, variables_->GetRows()));
    return costs_.GetValues()(0);
  }
  Eigen::VectorXd EvaluateCostFunctionGradient(const double *x) {
    variables_->SetVariables(Eigen::Map<const Eigen::VectorXd>(x, variables_->GetRows()));
    return Eigen::MatrixXd(costs_.GetJacobian()).row(0).transpose();
  }
  Eigen::VectorXd EvaluateConstraints(const double *x) {
    variables_->SetVariables(Eigen::Map<const Eigen::VectorXd>(x, variables_->GetRows()));
    return constraints_.GetValues();
  }
  void PrintCurrent() const {}

 private:
  Composite::Ptr variables_;
  Composite constraints_, costs_;
};

class Solver {
 public:
  using Ptr = std::shared_ptr<Solver>;
  virtual ~Solver() = default;
  virtual void Solve(Problem &nlp) = 0;
  int GetReturnStatus() const { return return_status_; }

 protected:
  int return_status_ = 1;
};

class IpoptSolver : public Solver {
 public:
  // what the next call of Solve does
  struct Plan {
    int status = 0;       // reported outcome
    int iterations = 12;  // of the optimiser
    std::function<void(Problem &)> inspect;
    int solved = 0;  // number of calls
    Eigen::VectorXd solution;
  };
  static Plan &plan() {
    static Plan p;
    return p;
  }
  std::map<std::string, std::vector<std::string>> options;
  void SetOption(const std::string &n, const std::string &v) { options[n].push_back("s:" + v); }
  void SetOption(const std::string &n, int v) { options[n].push_back("i:" + std::to_string(v)); }
  void SetOption(const std::string &n, double v) {
    char b[64];
    snprintf(b, sizeof b, "d:%.17g", v);
    options[n].push_back(b);
  }
  double GetTotalWallclockTime() { return 0; }
  static std::map<std::string, std::vector<std::string>> &last_options() {
    static std::map<std::string, std::vector<std::string>> o;
    return o;
  }

  void Solve(Problem &nlp) override {
    Plan &p = plan();
    p.solved++;
    last_options() = options;
    Eigen::VectorXd x0 = nlp.GetOptVariables()->GetValues();
    if (p.inspect) p.inspect(nlp);
    // projected gradient with respect to the linear equality constraints,
    // staying inside of the bounds
    Eigen::VectorXd x = x0;
    auto bounds = nlp.GetOptVariables()->GetBounds();
    nlp.EvaluateConstraints(x.data());
    Eigen::MatrixXd J = nlp.GetConstraints().GetJacobian();
    double f = nlp.EvaluateCostFunction(x.data());
    double h = 0.25;
    for (int it = 0; it < p.iterations; it++) {
      Eigen::VectorXd g = nlp.EvaluateCostFunctionGradient(x.data());
      if (!g.allFinite() || g.size() != x.size()) break;
      Eigen::VectorXd d = -g;
      auto project = [&](Eigen::VectorXd &v) {
        if (J.rows() > 0) v -= J.transpose() * (J * J.transpose()).ldlt().solve(J * v);
      };
      project(d);
      double m = d.cwiseAbs().maxCoeff();
      if (!(m > 1e-9 * g.cwiseAbs().maxCoeff()) || !(m > 1e-300)) break;
      d *= h * x0.cwiseAbs().minCoeff() / m;
      project(d);
      bool ok = false;
      for (int k = 0; k < 20 && !ok; k++) {
        Eigen::VectorXd y = x + d;
        bool in = true;
        for (int i = 0; i < y.size(); i++)
          in = in && y(i) > bounds[(size_t)i].lower_ + 0.2 * std::fabs(x0(i)) && y(i) < bounds[(size_t)i].upper_;
        double fy = in ? nlp.EvaluateCostFunction(y.data()) : f;
        if (in && fy < f) {
          x = y;
          f = fy;
          ok = true;
        } else {
          d *= 0.5;
          h *= 0.5;
        }
      }
      if (!ok) break;
      h = std::min(0.5, h * 2);
    }
    nlp.GetOptVariables()->SetVariables(x);
    p.solution = x;
    return_status_ = p.status;
  }
};
}  // namespace ifopt
