#pragma once
namespace boost { class thread { public: template <class F> explicit thread(F) {} void join() {} }; }
