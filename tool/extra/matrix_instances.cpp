// Uses of the matrix look-up and creation templates that the library itself leaves uninstantiated, so that their bodies are analysed.
#include "matrix/polynomial_matrix.h"
#include "matrix/monomial_matrix.h"
#include "matrix_system/matrix_system.h"
#include "multithreading/multithreading.h"
namespace Moment {
    void extra_matrices(MatrixSystem& ms, const MatrixSystem& cms, const LocalizingMatrixIndex& lmi, const PolynomialLocalizingMatrixIndex& plmi) {
        const auto policy = Multithreading::MultiThreadPolicy::Optional;
        (void) ms.MomentMatrix(size_t{1}, policy);
        (void) ms.LocalizingMatrix(lmi, policy);
        (void) ms.PolynomialLocalizingMatrix(plmi, policy);
        (void) cms.MomentMatrix(size_t{1});
        (void) cms.LocalizingMatrix(lmi);
        (void) cms.PolynomialLocalizingMatrix(plmi);
        (void) ms.MomentMatrix.create(size_t{1}, policy);
        (void) ms.LocalizingMatrix.create(lmi, policy);
        (void) ms.PolynomialLocalizingMatrix.create(plmi, policy);
    }
}
