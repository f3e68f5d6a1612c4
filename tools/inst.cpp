// Synthetic translation unit: forces every library template that a user can
// instantiate to be instantiated completely, so the analyses see all members.
#include "xmm.h"
#include "xmmMatrix.hpp"
#include "xmmCircularbuffer.hpp"
#include "xmmGmm.hpp"
#include "xmmHierarchicalHmm.hpp"
#include "xmmKMeans.hpp"
namespace xmm {
template class Attribute<bool>;
template class Attribute<int>;
template class Attribute<unsigned int>;
template class Attribute<float>;
template class Attribute<double>;
template class Attribute<std::string>;
template class Attribute<std::vector<std::string>>;
template class Attribute<std::vector<double>>;
template class CircularBuffer<double>;
template class Matrix<double>;
template class EventGenerator<PhraseEvent>;
template class EventGenerator<TrainingEvent>;
template class Configuration<GMM>;
template class Configuration<HMM>;
template class Configuration<KMeans>;
template class Model<SingleClassGMM, GMM>;
template class Model<SingleClassHMM, HMM>;
template class CircularBuffer<double, 3>;
}
