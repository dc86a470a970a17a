/* modules/libpthread/include/picotm/config/picotm-libpthread-config.h.  Generated from picotm-libpthread-config.h.in by configure.  */
/*
 * picotm - A system-level transaction manager
 * Copyright (c) 2017   Thomas Zimmermann <contact@tzimmermann.org>
 *
 * This program is free software: you can redistribute it and/or modify
 * it under the terms of the GNU Lesser General Public License as published by
 * the Free Software Foundation, either version 3 of the License, or
 * (at your option) any later version.
 *
 * This program is distributed in the hope that it will be useful,
 * but WITHOUT ANY WARRANTY; without even the implied warranty of
 * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
 * GNU General Public License for more details.
 *
 * You should have received a copy of the GNU Lesser General Public License
 * along with this program.  If not, see <https://www.gnu.org/licenses/>.
 *
 * SPDX-License-Identifier: LGPL-3.0-or-later
 */

#pragma once

/*
 * Types
 */

#ifndef PICOTM_LIBPTHREAD_HAVE_TYPE_PTHREAD_T
#define PICOTM_LIBPTHREAD_HAVE_TYPE_PTHREAD_T 1
#endif

/*
 * Public interfaces
 */

#ifndef PICOTM_LIBPTHREAD_HAVE_PTHREAD_EQUAL
#define PICOTM_LIBPTHREAD_HAVE_PTHREAD_EQUAL 1
#endif

#ifndef PICOTM_LIBPTHREAD_HAVE_PTHREAD_SELF
#define PICOTM_LIBPTHREAD_HAVE_PTHREAD_SELF 1
#endif
