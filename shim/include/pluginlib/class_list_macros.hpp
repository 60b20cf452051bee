#pragma once
#include <pluginlib/class_loader.hpp>
#define PLUGINLIB_EXPORT_CLASS(C, B) namespace { [[maybe_unused]] const bool verif_plugin_registered = (vshim::plugins<B>()[#C] = [] { return std::shared_ptr<B>(std::make_shared<C>()); }, true); }
