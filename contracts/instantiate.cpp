// Instantiates the templates of /repo whose instances the libraries themselves
// do not need, so that clang generates the function bodies that are verified.
#include "vara/Configuration/Configuration.h"
#include "vara/Feature/Constraint.h"
#include "vara/Feature/ConstraintBuilder.h"
#include "vara/Feature/ConstraintParser.h"
#include "vara/Feature/Feature.h"
#include "vara/Feature/FeatureModel.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelTransaction.h"
#include "vara/Feature/OrderedFeatureVector.h"
#include "vara/Feature/StepFunctionParser.h"
#include "vara/Solver/ConfigurationFactory.h"
#include "vara/Solver/SolverFactory.h"
#include "vara/Utils/Result.h"
#include "vara/Utils/UniqueIterator.h"

#include <string>
#include <utility>

// Result, Ok and Error over plain element types, with every member generated.
template class vara::Ok<int>;
template class vara::Ok<std::string>;
template class vara::Error<int>;
template class vara::Error<std::string>;
template class vara::Result<vara::feature::FTErrorCode, int>;
template class vara::Result<vara::feature::FTErrorCode, std::string>;
template class vara::Result<std::string, int>;
void instantiateResults(std::string S) {
  using namespace vara;
  using FT = vara::feature::FTErrorCode;
  FT X = vara::feature::MISSING_FEATURE;
  Result<FT, std::string> A{Ok<std::string>(S)}, B(std::move(S)), C(std::move(X)),
      D{Error<FT>(X)};
  Result<FT, int> K{Ok<int>(1)}, M{Error<FT>(X)};
  Result<std::string, int> N(1), O(std::move(S));
  (void)*A, (void)*std::move(A), (void)C.getError(), (void)std::move(C).getError();
}

template class vara::feature::FeatureModelTransaction<vara::feature::detail::ModifyTransactionMode>;
template class vara::feature::FeatureModelTransaction<vara::feature::detail::CopyTransactionMode>;
template class vara::UniqueIterator<const std::vector<std::unique_ptr<vara::feature::FeatureModel::BooleanConstraint>>>;
