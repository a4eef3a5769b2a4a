#pragma once
extern "C" { int omp_get_max_threads(void) noexcept; int omp_get_thread_num(void) noexcept; int omp_get_num_threads(void) noexcept; void omp_set_num_threads(int) noexcept; double omp_get_wtime(void) noexcept; }
