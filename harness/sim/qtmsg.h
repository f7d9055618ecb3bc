// Messages with fields of Qt types.
#pragma once
#include <cstdint>
#include <string>
#include "refqt.pb.h"
namespace vqt { class Qts; }

refqt::Qts makeQts(int64_t uid, int64_t x);
void qtsToQt(const refqt::Qts &from, vqt::Qts &to);
refqt::Qts qtsFromQt(const vqt::Qts &from);
std::string canonQts(const refqt::Qts &m);
void registerQtTypes();
