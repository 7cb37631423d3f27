import sys,os
R='/tmp/refrepo/'; D='include/boost/sync/detail/'
def sub(f,*prs):
    p=R+f; s=open(p).read()
    for a,b in prs:
        assert a in s,(f,a); s=s.replace(a,b)
    open(p,'w').write(s)
# spin: local helper, strong CAS, reordered
sub(D+'mutexes/spin_mutex.hpp',('''        for(;;)
        {
            if (try_lock())
                break;
            detail::pause();
        }''','''        bool acquired = try_lock();
        while (!acquired)
        {
            detail::pause();
            detail::pause();
            acquired = try_lock();
        }'''),('''        for(;;)
        {
            while( state.load(detail::atomic_ns::memory_order_relaxed) != (bool)unlocked_state )
                detail::pause();

            if (try_lock())
                break;
        }''','''        while (!try_lock())
        {
            do
            {
                detail::pause();
            }
            while (state.load(detail::atomic_ns::memory_order_acquire) != (bool)unlocked_state);
        }'''))
sub(D+'mutexes/shared_spin_mutex.hpp',('''        for (;;) {
            while( state.load(detail::atomic_ns::memory_order_relaxed) != unlocked_state )
                detail::pause();

            uint32_t expected = unlocked_state;
            if( state.compare_exchange_weak(expected, locked_state,
                                            detail::atomic_ns::memory_order_acquire,
                                            detail::atomic_ns::memory_order_relaxed) )
                break;
        }''','''        while (!try_lock()) {
            for (unsigned i = 0; i < 4 && state.load(detail::atomic_ns::memory_order_relaxed) != unlocked_state; ++i)
                detail::pause();
        }'''),('''        for(;;) {
            while( state.load(detail::atomic_ns::memory_order_relaxed) == locked_state )
                detail::pause();


            /* with the mask, the cas will fail, locked exclusively */
            uint32_t current_state    = state.load(detail::atomic_ns::memory_order_acquire) & reader_mask;
            const uint32_t next_state = current_state + 1;

            if ( state.compare_exchange_weak(current_state, next_state, detail::atomic_ns::memory_order_acquire,
                                             detail::atomic_ns::memory_order_relaxed) )
                break;
            detail::pause();
        }''','''        uint32_t current_state = state.load(detail::atomic_ns::memory_order_relaxed);
        for (;;) {
            if ((current_state & locked_state) != 0) {
                detail::pause();
                current_state = state.load(detail::atomic_ns::memory_order_relaxed);
                continue;
            }
            if ( state.compare_exchange_strong(current_state, current_state + 1, detail::atomic_ns::memory_order_acq_rel,
                                             detail::atomic_ns::memory_order_relaxed) )
                return;
        }'''))
# auto reset event: helper extracted, wake outside, extra wake, stronger orders, early load
sub(D+'events/auto_reset_event_futex.hpp',('''        if (waiters > 0)
            sync::detail::linux_::futex_signal(reinterpret_cast< int* >(&m_state));''','''        if (waiters != 0)
        {
            int* const addr = reinterpret_cast< int* >(&m_state);
            sync::detail::linux_::futex_signal(addr);
        }'''),('''                const int status = sync::detail::linux_::futex_wait(reinterpret_cast< int* >(&m_state), old_state);
                    if (BOOST_UNLIKELY(status != 0))
                    {
                        const int err = errno;
                        switch (err)
                        {
                        case EINTR:       // signal received
                        case EWOULDBLOCK: // another thread changed the state
                            break;

                        default:
                            BOOST_ASSERT(false);
                        }
                    }
''','''                sync::detail::linux_::futex_wait(reinterpret_cast< int* >(&m_state), old_state);
'''),('''        unsigned int old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);

        for (unsigned int posts = old_state >> wait_count_bits; posts > 0; posts = old_state >> wait_count_bits)
        {
            if (BOOST_LIKELY(m_state.compare_exchange_weak(old_state, old_state - post_count_one, detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed)))
                return true;

            detail::pause();
        }

        return false;''','''        unsigned int old_state = m_state.load(detail::atomic_ns::memory_order_acquire);
        while ((old_state & post_count_mask) != 0u)
        {
            if (m_state.compare_exchange_strong(old_state, old_state - post_count_one))
                return true;
        }
        return false;'''))
sub(D+'events/manual_reset_event_futex.hpp',('''        unsigned int old_state = m_state.fetch_or(post_bit, boost::memory_order_release); // set state
        if ((old_state & post_bit) == 0u && (old_state & wait_count_mask) != 0u)
''','''        const unsigned int previous = m_state.fetch_or(post_bit, boost::memory_order_acq_rel); // set state
        const bool has_waiters = (previous >> 1) != 0u;
        if (has_waiters)
'''),('''        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
        while ((old_state & post_bit) == 0u)
        {
            sync::detail::linux_::futex_wait(reinterpret_cast< int* >(&m_state.value()), old_state);
            old_state = m_state.load(boost::memory_order_relaxed);
        }
''','''        for (unsigned int state = m_state.add(wait_count_one, boost::memory_order_relaxed); !(state & post_bit); state = m_state.load(boost::memory_order_relaxed))
        {
            sync::detail::linux_::futex_wait(reinterpret_cast< int* >(&m_state.value()), state);
        }
'''))
# semaphore emulation: notify after unlock, predicate wait
sub(D+'semaphore/semaphore_emulation.hpp',('''        sync::lock_guard< sync::mutex > lock(m_mutex);
        if (BOOST_UNLIKELY(m_count == UINT_MAX))
            BOOST_SYNC_DETAIL_THROW(overflow_error, (EOVERFLOW)("semaphore post failed: semaphore counter overflow"));
        ++m_count;
        m_cond.notify_one();''','''        sync::unique_lock< sync::mutex > lock(m_mutex);
        if (BOOST_UNLIKELY(m_count == UINT_MAX))
            BOOST_SYNC_DETAIL_THROW(overflow_error, (EOVERFLOW)("semaphore post failed: semaphore counter overflow"));
        m_count = m_count + 1u;
        lock.unlock();
        m_cond.notify_one();'''),('''        while (m_count == 0)
            m_cond.wait(lock);
''','''        m_cond.wait(lock, is_not_zero(m_count));
'''))
sub(D+'mutexes/timed_mutex_posix.hpp',('''        sync::detail::posix::pthread_mutex_lock_guard const local_lock(m_mutex);
        m_is_locked = false;
        BOOST_VERIFY(pthread_cond_signal(&m_cond) == 0);''','''        {
            sync::detail::posix::pthread_mutex_lock_guard const local_lock(m_mutex);
            m_is_locked = false;
        }
        BOOST_VERIFY(pthread_cond_signal(&m_cond) == 0);'''),('''        if (try_lock())
            return true;

        typedef typename TimePoint::clock clock;
        typename clock::time_point now = clock::now();
        while (now < t.get())
        {
            if (priv_timed_lock(sync::detail::to_sync_duration(t.get() - now)))
                return true;
            now = clock::now();
        }
        return false;''','''        typedef typename TimePoint::clock clock;
        bool res = try_lock();
        for (typename clock::time_point now = clock::now(); !res && now < t.get(); now = clock::now())
            res = priv_timed_lock(sync::detail::to_sync_duration(t.get() - now));
        return res;'''))
sub('src/tss_manager.hpp',('''        // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
        for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
        {
            it->mtx->unlock();
            it->cond->notify_all();
        }

        // Destroy the context
        {
            sync::lock_guard< mutex_type > lock(m_mutex);
            m_thread_contexts.erase(m_thread_contexts.iterator_to(*p));
        }
        delete p;''','''        std::vector< thread_context::notify_at_exit_entry > entries;
        entries.swap(p->m_notify_at_exit);

        // Destroy the context
        unlink(p);
        delete p;

        // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
        for (std::size_t i = 0; i < entries.size(); ++i)
        {
            entries[i].mtx->unlock();
            entries[i].cond->notify_all();
        }'''),('''private:
    //! Removes a non-NULL''','''private:
    void unlink(thread_context* p)
    {
        sync::lock_guard< mutex_type > lock(m_mutex);
        m_thread_contexts.erase(m_thread_contexts.iterator_to(*p));
    }

    //! Removes a non-NULL'''),('''                std::vector< thread_context::at_exit_entry > at_exit_functions;
                at_exit_functions.swap(p->m_at_exit_functions);

                for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
                {
                    it->callback(it->context);
                }''','''                std::vector< thread_context::at_exit_entry > at_exit_functions(p->m_at_exit_functions);
                p->m_at_exit_functions.clear();

                for (std::size_t i = at_exit_functions.size(); i-- > 0u; )
                {
                    at_exit_functions[i].callback(at_exit_functions[i].context);
                }'''))
sub(D+'condition_variables/condition_variable_any_generic.hpp',('''        sync::lock_guard< sync::mutex > internal_lock(m_mutex);
        m_cond.notify_all();''','''        m_mutex.lock();
        m_mutex.unlock();
        m_cond.notify_all();'''),('''    void wait(Lock& lock, Predicate pred)
    {
        while (!pred())
            this->wait(lock);
    }''','''    void wait(Lock& lock, Predicate pred)
    {
        bool ready = pred();
        for (; !ready; ready = pred())
        {
            this->wait(lock);
        }
    }'''),('''        while (!pred())
        {
            if (this->wait_until(lock, abs_time) != sync::cv_status::no_timeout)
                return pred();
        }
        return true;''','''        sync::cv_status status = sync::cv_status::no_timeout;
        bool res;
        while (!(res = pred()) && status == sync::cv_status::no_timeout)
            status = this->wait_until(lock, abs_time);
        return res;'''))
sub(D+'condition_variables/condition_variable_posix.hpp',('''        unit_type abs_timeout = sync::detail::time_traits< TimePoint >::to_sync_unit(abs_time);
        while (!pred())
        {
            if (this->priv_timed_wait(lock, abs_timeout) != sync::cv_status::no_timeout)
                return pred();
        }
        return true;''','''        unit_type abs_timeout = sync::detail::time_traits< TimePoint >::to_sync_unit(abs_time);
        return priv_wait_pred(lock, abs_timeout, pred);'''),('''        sync::detail::system_time_point abs_timeout = sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(rel_time);
        while (!pred())
        {
            if (this->priv_timed_wait(lock, abs_timeout) != sync::cv_status::no_timeout)
                return pred();
        }
        return true;''','''        return priv_wait_pred(lock, sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(rel_time), pred);'''),('''    void priv_wait(pthread_mutex_t* mtx)
''','''    template< typename Lock, typename Unit, typename Predicate >
    bool priv_wait_pred(Lock& lock, Unit const& abs_timeout, Predicate& pred)
    {
        for (;;)
        {
            if (pred())
                return true;
            if (this->priv_timed_wait(lock, abs_timeout) == sync::cv_status::timeout)
                break;
        }
        return pred();
    }

    void priv_wait(pthread_mutex_t* mtx)
'''))
sub('include/boost/sync/locks/unique_lock.hpp',('''        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
    {
        that.m_mutex = NULL;
        that.m_is_locked = false;
    }''','''        m_mutex(NULL), m_is_locked(false)
    {
        swap((unique_lock&)that);
    }'''),('''    ~unique_lock()
    {
        if (m_is_locked)
            m_mutex->unlock();
    }''','''    ~unique_lock()
    {
        if (!m_is_locked)
            return;
        mutex_type* const m = m_mutex;
        m->unlock();
    }'''),('''        m_is_locked = m_mutex->try_lock();

        return m_is_locked;''','''        if (m_mutex->try_lock())
            m_is_locked = true;

        return m_is_locked;'''))
sub('src/tss_pthread.cpp',('''    tss_manager::thread_context* ctx = get_thread_context();

    if (!ctx)
    {
        ctx = tss_mgr->create_thread_context();
        set_thread_context(ctx);
    }

    ctx->add_at_exit_entry(callback, context);''','''    require_thread_context()->add_at_exit_entry(callback, context);'''),('''    tss_manager::thread_context* ctx = get_thread_context();

    if (!ctx)
    {
        ctx = tss_mgr->create_thread_context();
        set_thread_context(ctx);
    }

    tss_mgr->set_value(ctx, key, p);''','''    tss_mgr->set_value(require_thread_context(), key, p);'''),('''extern "C" {

static void tss_cleanup(void* p)
{''','''tss_manager::thread_context* require_thread_context()
{
    if (tss_manager::thread_context* const ctx = get_thread_context())
        return ctx;
    tss_manager::thread_context* const p = tss_mgr->create_thread_context();
    set_thread_context(p);
    return p;
}

extern "C" {

static void tss_cleanup(void* p)
{'''))
